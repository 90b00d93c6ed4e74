package props

import (
	"github.com/sfomuseum/go-edtf/parser"
	"verif/harness/sym"
)

// The grammar of the specification with the package's own extensions, written
// apart from the package's expressions. Dates need not exist.
const (
	gYear   = `-?[0-9]{4}`
	gMonth  = `(?:0[1-9]|1[0-2])`
	gDay    = `(?:0[1-9]|[12][0-9]|3[01])`
	gDate   = gYear + `(?:-` + gMonth + `(?:-` + gDay + `)?)?`
	gTime   = gYear + `-` + gMonth + `-` + gDay + `T(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]`
	gZone   = `(?:Z|[+-][0-9]{2}(?::[0-9]{2})?)?`
	gPrefix = `Y-?[0-9]+`
	gExp    = `[Yy]-?[0-9]+[Ee][0-9]+`
	gNamed  = `(?:[Ss](?i:pring|ummer)|(?i:fall|winter))[\t\n\f\r ]*,[\t\n\f\r ]*[0-9]{4}`
	gXMonth = `(?:[0X][1-9X]|[1X][0-2X])`
	gXDay   = `(?:[0X][1-9X]|[12X][0-9X]|[3X][01X])`
	gXDate  = `[0-9X]{4}(?:-` + gXMonth + `(?:-` + gXDay + `)?)?`
	gQYear  = `(?:[?~%]?-?[0-9X]{4}|-?[0-9X]{4}[?~%])`
	gQMonth = `(?:[?~%]?` + gXMonth + `|` + gXMonth + `[?~%])`
	gQDay   = `(?:[?~%]?` + gXDay + `|` + gXDay + `[?~%])`
	gQDate  = gQYear + `(?:-` + gQMonth + `(?:-` + gQDay + `)?)?`
	gList   = `(?:\.\.)?` + gDate + `(?:\.\.` + gDate + `)?(?:,` + gDate + `(?:\.\.` + gDate + `)?)*(?:\.\.)?`

	gLevel0 = gDate + `|` + gTime + gZone + `|` + gDate + `/` + gDate
	gLevel1 = gPrefix + `|` + gYear + `-2[1-4]|` + gNamed + `|` + gDate + `[?~%]|` + gXDate + `|(?:\.\.)?/` + gDate + `|` + gDate + `/(?:\.\.)?|-[0-9]{4}`
	gLevel2 = gExp + `|(?:` + gYear + `|` + gPrefix + `|` + gExp + `)S[0-9]+|` + gYear + `-(?:2[1-9]|3[0-9]|4[01])|\[` + gList + `\]|\{` + gList + `\}|` +
		gQDate + `|` + gQDate + `/` + gQDate
)

// What each level is sure to cover, for the classification.
const (
	grammar0 = gDate + `|` + gTime + gZone + `|` + gDate + `/` + gDate
	grammar1 = gPrefix + `|` + gYear + `-2[1-4]|` + gNamed + `|` + gDate + `[?~%]|[0-9]{3}X|[0-9]{2}XX|[0-9]{4}-XX(?:-XX)?|[0-9]{4}-` + gMonth + `-XX|(?:\.\.)?/` + gDate + `|` + gDate + `/(?:\.\.)?`
	grammar2 = `Y-?[0-9]+E[0-9]+|(?:` + gYear + `|` + gPrefix + `|Y-?[0-9]+E[0-9]+)S[0-9]+|[0-9]{4}-(?:2[5-9]|3[0-9]|4[01])|\[` + gList + `\]|\{` + gList + `\}|` +
		`[0-9]{4}[?~%]-` + gMonth + `(?:-` + gDay + `)?|[0-9]{4}-` + gMonth + `[?~%]-` + gDay + `|[?~%][0-9]{4}(?:-` + gMonth + `(?:-` + gDay + `)?)?|[0-9]{4}-[?~%]` + gMonth + `(?:-` + gDay + `)?|` +
		`[0-9]{4}-` + gMonth + `-[?~%]` + gDay + `|` +
		`[?~%]?` + gYear + `(?:-[?~%]?` + gMonth + `(?:-[?~%]?` + gDay + `)?)?/[?~%]?` + gYear + `(?:-[?~%]?` + gMonth + `(?:-[?~%]?` + gDay + `)?)?`
)

func only(re string) string { return `^(?:` + re + `)$` }

// inside checks that s parses only if it is an expression.
func inside(s string) {
	res, err := parser.ParseString(s)
	sym.Observe("s", s)
	sym.Observe("err", err != nil)
	if err != nil || res == nil || s == "" || s == ".." {
		return
	}
	sym.Assert(sym.Or(sym.Match(only(gLevel0), s), sym.Match(only(gLevel1), s), sym.Match(only(gLevel2), s)), "only an expression parses")
	switch res.Level {
	case 0:
		sym.Assert(sym.Match(only(gLevel0), s), "only a level 0 expression parses as level 0")
	case 1:
		sym.Assert(sym.Match(only(gLevel1), s), "only a level 1 expression parses as level 1")
	}
}

// C03_raw: every string of up to 9 (thorough 14) bytes.
func C03_raw() { inside(sym.String("s", sym.Choice("n", sym.N(10, 15)))) }

// C03_shapes: every shape of string.
func C03_shapes() { inside(shape("s", sym.Choice("shape", shapes))) }

// C03_outside: every string of 10 to 14 (thorough 18) bytes that some level's
// recogniser takes though it is no expression.
func C03_outside() {
	s := sym.String("s", 10+sym.Choice("n", sym.N(5, 9)))
	sym.Assume(known(s))
	sym.Assume(sym.Not(sym.Or(sym.Match(only(gLevel0), s), sym.Match(only(gLevel1), s), sym.Match(only(gLevel2), s))))
	_, err := parser.ParseString(s)
	sym.Observe("s", s)
	sym.Assert(err != nil, "only an expression parses")
}

// C03_inserted: every shape of string with two or three (thorough up to six) bytes
// inserted at any place.
func C03_inserted() {
	s := lean("s", sym.Choice("shape", shapes))
	at := sym.Choice("at", len(s)+1)
	inside(s[:at] + sym.String("b", 2+sym.Choice("nb", sym.N(2, 5))) + s[at:])
}

// C03_near: every shape of string with one byte changed.
func C03_near() { inside(mutated("s", sym.Choice("shape", shapes))) }

// C03_joined: every shape of string before or after a year, with one of the joiners
// "", "/", ",", "-", "..", " ", "\n", "T", "S" between them.
func C03_joined() {
	joiners := [...]string{"", "/", ",", "-", "..", " ", "\n", "T", "S"}
	s, y := lean("s", sym.Choice("shape", shapes)), sym.Digits("year", 4)
	j := joiners[sym.Choice("joiner", len(joiners))]
	if sym.Choice("after", 2) == 0 {
		inside(s + j + y)
	} else {
		inside(y + j + s)
	}
}

// C03_padded: every shape of string after or before 70 or 1025 (thorough: also 5000) of one of the
// bytes 0, space, newline, X, ? and -.
func C03_padded() {
	n := [3]int{70, 1025, 5000}[sym.Choice("size", sym.N(2, 3))]
	pad := [6]string{"0", " ", "\n", "X", "?", "-"}[sym.Choice("pad", 6)]
	for len(pad) < n {
		pad += pad
	}
	s := lean("s", sym.Choice("shape", shapes))
	if sym.Choice("after", 2) == 0 {
		inside(pad[:n] + s)
	} else {
		inside(s + pad[:n])
	}
}

// C03_huge: nine pieces of text repeated to 1025, 4097 and 70000 bytes, with any byte before and
// after, alone or after the beginning of a year.
func C03_huge() { inside(huge()) }
