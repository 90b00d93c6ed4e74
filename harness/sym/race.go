//go:build race

package sym

import "runtime"

func races() int { return runtime.RaceErrors() }
