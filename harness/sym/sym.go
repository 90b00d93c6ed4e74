// Package sym is the interface between the harnesses and the symbolic engine.
//
// Under the engine every function here is intercepted by name: inputs become
// symbolic variables and Assert becomes a query. The bodies below are used when
// a harness is replayed natively: inputs come from a table of concrete values.
package sym

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
)

type state struct {
	in      map[string]string
	names   map[string]int
	tier    int
	fails   []string
	obs     []string
	covered map[string]bool
}

var cur *state

// Stopped is panicked with when an assumption does not hold.
type Stopped struct{}

// Begin starts a native replay.
func Begin(in map[string]string, tier int) {
	cur = &state{in: in, names: map[string]int{}, tier: tier, covered: map[string]bool{}}
	time.Local = time.UTC
	if z := zone(); z != 0 {
		time.Local = time.FixedZone("zone", z)
	}
}

// zone is the offset of the local time zone in seconds.
func zone() int { return int(val("local.zone", 0)) * 60 }

// zoneFile writes a time zone file for the local time zone.
func zoneFile() string {
	f, err := os.CreateTemp("", "zone")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, 0, 1, 4, uint32(int32(zone()))} {
		b = binary.BigEndian.AppendUint32(b, n)
	}
	b = append(b, 0, 0)
	b = append(b, "LMT\x00"...)
	if _, err := f.Write(b); err != nil {
		panic(err)
	}
	return f.Name()
}

// End returns the failed assertions and the observations.
func End() (fails, obs []string) { return cur.fails, cur.obs }

func unique(name string) string {
	cur.names[name]++
	if n := cur.names[name]; n > 1 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func val(name string, def int64) int64 {
	s, ok := cur.in[name]
	if !ok {
		return def
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic("bad replay value " + name + "=" + s)
	}
	return v
}

func pick(alphabet string) byte {
	var has [256]bool
	for i := 0; i < len(alphabet); i++ {
		has[alphabet[i]] = true
	}
	for i := 32; i < 127; i++ {
		if has[i] {
			return byte(i)
		}
	}
	min := byte(255)
	for i := 0; i < len(alphabet); i++ {
		if alphabet[i] < min {
			min = alphabet[i]
		}
	}
	return min
}

// String is any string of n bytes.
func String(name string, n int) string {
	name = unique(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i), 32))
	}
	return string(b)
}

// StringIn is any string of n bytes of the alphabet.
func StringIn(name string, n int, alphabet string) string {
	name = unique(name)
	b := make([]byte, n)
	d := pick(alphabet)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i), int64(d)))
	}
	return string(b)
}

// Digits is any string of n decimal digits.
func Digits(name string, n int) string { return StringIn(name, n, "0123456789") }

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	name = unique(name)
	def := 0
	if def < lo {
		def = lo
	}
	if hi < def {
		def = hi
	}
	return int(val(name, int64(def)))
}

// Int64 is any 64-bit integer.
func Int64(name string) int64 { return val(unique(name), 0) }

// Uint32 is any 32-bit unsigned integer.
func Uint32(name string) uint32 { return uint32(val(unique(name), 0)) }

// Bool is any boolean.
func Bool(name string) bool { return val(unique(name), 0) != 0 }

// Choice is one of 0..n-1; the engine treats each as a separate case.
func Choice(name string, n int) int { return Int(name, 0, n-1) }

// Pin makes the engine treat every value of v as a separate case.
func Pin(v int) int { return v }

// PinStr makes the engine treat every value of s as a separate case.
func PinStr(s string) string { return s }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(Stopped{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		cur.fails = append(cur.fails, label)
	}
}

// Cover notes that the inputs reach this point.
func Cover(label string) { cur.covered[label] = true }

// Observe compares a value between the engine and the native run.
func Observe(label string, v interface{}) { cur.obs = append(cur.obs, label+"="+show(v)) }

func show(v interface{}) string {
	switch x := v.(type) {
	case string:
		return strconv.Quote(x)
	case bool:
		return strconv.FormatBool(x)
	case []byte:
		return strconv.Quote(string(x))
	case nil:
		return "nil"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(r.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.String:
		return strconv.Quote(r.String())
	}
	return fmt.Sprintf("%T", v)
}

// And, Or, Not, Implies and Ite do not split cases.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func Ite64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// EqStr compares strings without splitting cases.
func EqStr(a, b string) bool { return a == b }

// In says whether c occurs in the alphabet.
func In(c byte, alphabet string) bool { return strings.IndexByte(alphabet, c) >= 0 }

// Match says whether s matches the regular expression, without splitting cases.
func Match(re, s string) bool { return match(re, s) }

// Num reads decimal digits as an integer, without splitting cases.
func Num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]) - '0'
	}
	return n
}

// Pad prints n, which must fit, with exactly w digits.
func Pad(n, w int) string { return fmt.Sprintf("%0*d", w, n) }

// DaysIn is the number of days of a month of the proleptic Gregorian calendar.
func DaysIn(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// Secs is the Unix time of second sod of a calendar day.
func Secs(y, m, d, sod int) int64 {
	yy, mm := int64(y), int64(m)
	if mm <= 2 {
		yy--
	}
	era := floordiv(yy, 400)
	yoe := yy - era*400
	doy := (153*((mm+9)%12)+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return (era*146097+doe-719468)*86400 + int64(sod)
}

func floordiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Tier is 0 for a quick run and 1 for a thorough one.
func Tier() int { return cur.tier }

// N is q in a quick run and t in a thorough one.
func N(q, t int) int {
	if cur.tier > 0 {
		return t
	}
	return q
}

// Budget bounds the share of the engine's time a harness may take; no effect here.
func Budget(pct int) {}

// Together runs f and g at the same time; the engine runs one after the other and
// counts what GlobalsWritten counts.
func Together(f, g func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	var stop [2]interface{}
	run := func(i int, f func()) {
		defer wg.Done()
		defer func() { stop[i] = recover() }()
		f()
	}
	go run(0, f)
	go run(1, g)
	wg.Wait()
	for _, e := range stop {
		if e != nil {
			panic(e)
		}
	}
}

// GlobalsWritten counts stores, so far, into memory reachable from the tested
// packages' variables that was not protected by a lock. Natively it counts the
// race detector's reports, if the replay was built with it.
func GlobalsWritten() int { return races() }

// Shared says that two values reach a common mutable memory cell.
func Shared(a, b interface{}) bool {
	m := map[uintptr]bool{}
	reach(reflect.ValueOf(a), func(p uintptr) { m[p] = true }, map[uintptr]bool{})
	hit := false
	reach(reflect.ValueOf(b), func(p uintptr) { hit = hit || m[p] }, map[uintptr]bool{})
	return hit
}

func reach(v reflect.Value, f func(uintptr), seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type().String() == "*time.Location" || v.Elem().Type().Size() == 0 {
			return
		}
		p := v.Pointer()
		if seen[p] {
			return
		}
		seen[p] = true
		f(p)
		reach(v.Elem(), f, seen)
	case reflect.Interface:
		if !v.IsNil() {
			reach(v.Elem(), f, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			reach(v.Field(i), f, seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			f(v.Index(i).Addr().Pointer())
			reach(v.Index(i), f, seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), f, seen)
		}
	case reflect.Map:
		if !v.IsNil() {
			f(v.Pointer())
		}
	}
}

// RunTool runs one of the repository's commands; status is its exit status.
func RunTool(name string, args ...string) (stdout string, status int) {
	bin := filepath.Join(os.Getenv("VERIF_TOOLS"), name)
	cmd := exec.Command(bin, args...)
	if zone() != 0 {
		tz := zoneFile()
		defer os.Remove(tz)
		cmd.Env = append(os.Environ(), "TZ="+tz)
	}
	out, err := cmd.Output()
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return string(out), e.ExitCode()
		}
		panic(err)
	}
	return string(out), 0
}
