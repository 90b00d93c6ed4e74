package props

import "verif/harness/sym"

// shapes is the number of shapes of string.
const shapes = 20

var shapeNames = [shapes]string{"date", "date and time", "interval", "open or unknown end", "season by name",
	"qualified group", "qualified components", "unspecified", "negative year", "prefixed year", "exponential year",
	"significant digits", "set of one", "set of two", "set with a range", "mixed interval", "marker", "prefixed significant",
	"exponential significant", "month of any code"}

// shape is a string written like one feature of the specification, with digits
// that need not make a date that exists.
func shape(tag string, k int) string { return shapeOf(tag, k, true) }

// lean is shape in the thorough tier; in the quick tier it leaves out most
// variants of each shape (signs, second precisions, zones, ...) and dates that do
// not exist.
func lean(tag string, k int) string { return shapeOf(tag, k, sym.Tier() > 0) }

func shapeOf(tag string, k int, full bool) string {
	c := func(name string, n int) int {
		if !full {
			switch name {
			case "neg", "square", "sp", "prec2", "left", "season":
				return 0
			case "ne":
				return 0
			case "ny", "nm", "where", "open2":
				return n - 1
			case "zone":
				return 1
			case "nx", "mk", "dk", "prec":
				return 2 * sym.Choice(tag+"."+name, 2)
			}
		}
		return sym.Choice(tag+"."+name, n)
	}
	anyDigits := func(tag string, neg, prec int) (string, bool) {
		if !full {
			return plain(tag, neg, prec).s, true
		}
		return anyDigits(tag, neg, prec)
	}
	ds := func(name string, n int) string {
		if !full && (name == "e" || name == "n") {
			return "22"[:n]
		}
		return sym.Digits(tag+"."+name, n)
	}
	minus := func() string { return [2]string{"", "-"}[c("neg", 2)] }
	q := func(name string) string { return sym.StringIn(tag+"."+name, 1, "?~%") }
	switch k {
	case 0:
		s, _ := anyDigits(tag, c("neg", 2), c("prec", 3))
		return s
	case 1:
		s, _ := anyDigits(tag, c("neg", 2), 2)
		s += "T" + ds("h", 2) + ":" + ds("mi", 2) + ":" + ds("s", 2)
		switch c("zone", 4) {
		case 1:
			s += "Z"
		case 2:
			s += sym.StringIn(tag+".sign", 1, "+-") + ds("zh", 2)
		case 3:
			s += sym.StringIn(tag+".sign", 1, "+-") + ds("zh", 2) + ":" + ds("zm", 2)
		}
		return s
	case 2:
		a, _ := anyDigits(tag+".a", 0, c("prec", 3))
		b, _ := anyDigits(tag+".b", c("neg", 2), 2*c("prec2", 2))
		return a + "/" + b
	case 3:
		s, _ := anyDigits(tag, 0, c("prec", 3))
		return [4]string{"../" + s, "/" + s, s + "/..", s + "/"}[c("form", 4)]
	case 4:
		return [4]string{"Spring", "SUMMER", "fall", "wiNter"}[c("season", 4)] + [2]string{",", " , "}[c("sp", 2)] + ds("y", 4)
	case 5:
		s, _ := anyDigits(tag, 0, c("prec", 3))
		switch c("where", 3) {
		case 1:
			return s[:4] + q("q") + s[4:]
		case 2:
			if len(s) > 7 {
				return s[:4] + q("q") + s[4:7] + q("r") + s[7:]
			}
		}
		return s + q("q")
	case 6:
		s, _ := anyDigits(tag, 0, c("prec", 3))
		switch c("where", 3) {
		case 1:
			if len(s) > 4 {
				return s[:5] + q("q") + s[5:]
			}
		case 2:
			if len(s) > 7 {
				return s[:5] + q("q") + s[5:8] + q("r") + s[8:]
			}
		}
		return q("q") + s
	case 7:
		return fill(tag, c("nx", 4), c("mk", ox+1), c("dk", hx+1), !full).s
	case 8:
		return "-" + ds("y", 4)
	case 9:
		return "Y" + minus() + ds("y", 3+c("ny", 3))
	case 10:
		return "Y" + minus() + ds("m", 1+c("nm", 2)) + "E" + ds("e", 1+c("ne", 2))
	case 11:
		return minus() + ds("y", 4) + "S" + ds("n", 1)
	case 12:
		s, _ := anyDigits(tag, c("neg", 2), c("prec", 3))
		return bracketed([3]string{"..", "", ""}[c("open", 3)]+s+[3]string{"", "", ".."}[c("open2", 3)], c("square", 2))
	case 13:
		a, _ := anyDigits(tag+".a", 0, 2*c("prec", 2))
		b, _ := anyDigits(tag+".b", c("neg", 2), c("prec2", 3))
		return bracketed([2]string{"", ".."}[c("open", 2)]+a+","+b, c("neg", 2))
	case 14:
		a, _ := anyDigits(tag+".a", 0, 2*c("prec", 2))
		b, _ := anyDigits(tag+".b", 0, c("prec2", 3))
		return bracketed(a+".."+b, c("square", 2))
	case 15:
		a, _ := anyDigits(tag+".a", 0, c("prec", 3))
		b := ds("x", 2) + "XX"
		if c("form", 2) == 1 {
			b = q("q") + ds("b.y", 4) + "-" + q("r") + ds("b.m", 2)
		}
		if c("left", 2) == 1 {
			return b + "/" + a
		}
		return a + "/" + b
	case 16:
		return [6]string{"..", "", "open", "uuuu", "unknown", "../.."}[c("marker", 6)]
	case 17:
		return "Y" + minus() + ds("y", 4) + "S" + ds("n", 1)
	case 18:
		return "Y" + minus() + ds("m", 2) + "E" + ds("e", 1) + "S" + ds("n", 1)
	}
	return minus() + ds("y", 4) + "-" + ds("m", 2)
}

func bracketed(s string, square int) string {
	if square == 1 {
		return "[" + s + "]"
	}
	return "{" + s + "}"
}
