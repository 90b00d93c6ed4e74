package props

import (
	"verif/harness/sym"
)

// C05_datetime: [-]YYYY-MM-DDThh:mm:ss followed by nothing, Z, a shift in hours
// or a shift in hours and minutes, every digit free.
func C05_datetime() {
	neg := sym.Choice("neg", 2)
	zone := sym.Choice("zone", 4)
	ys := sym.Digits("y", 4)
	ms := sym.Digits("m", 2)
	ds := sym.Digits("d", 2)
	hs := sym.Digits("hh", 2)
	mins := sym.Digits("mi", 2)
	ss := sym.Digits("ss", 2)
	y, m, d := sym.Num(ys), sym.Num(ms), sym.Num(ds)
	h, mi, sec := sym.Num(hs), sym.Num(mins), sym.Num(ss)
	s := ys + "-" + ms + "-" + ds + "T" + hs + ":" + mins + ":" + ss
	if neg == 1 {
		s = "-" + s
		y = -y
	}
	shift := 0
	shiftOK := true
	mayShift := true
	if zone == 1 {
		s += "Z"
	}
	if zone >= 2 {
		sign := sym.Choice("sign", 2)
		zh := sym.Digits("zh", 2)
		n := sym.Num(zh) * 60
		shiftOK = sym.Num(zh) <= 23
		mayShift = sym.Num(zh) <= 24
		z := zh
		if zone == 3 {
			zm := sym.Digits("zm", 2)
			z += ":" + zm
			n += sym.Num(zm)
			shiftOK = sym.And(shiftOK, sym.Num(zm) <= 59)
			mayShift = sym.And(mayShift, sym.Num(zm) <= 60)
		}
		if sign == 1 {
			s += "-" + z
			shift = -n
		} else {
			s += "+" + z
			shift = n
		}
	}
	res, err := parse(s)
	exists := sym.And(dateExists(y, m, d), h <= 23, mi <= 59, sec <= 59)
	if !exists {
		sym.Assert(err != nil, "an impossible date or time is refused")
		return
	}
	if err != nil {
		sym.Assert(sym.Not(shiftOK), "an existing date and time parses")
		return
	}
	sym.Assert(mayShift, "an impossible shift is refused")
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	want := sym.Secs(y, m, d, h*3600+mi*60+sec) - int64(shift)*60
	for i, b := range bounds(res) {
		boundAt(b, want, boundNames[i])
	}
	sym.Assert(res.Level == 0, "level")
	sym.Assert(sym.EqStr(res.Feature, "Date and Time"), "feature")
}
