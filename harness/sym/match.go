package sym

import "regexp"

var compiled = map[string]*regexp.Regexp{}

func match(re, s string) bool {
	r, ok := compiled[re]
	if !ok {
		r = regexp.MustCompile(re)
		compiled[re] = r
	}
	return r.MatchString(s)
}
