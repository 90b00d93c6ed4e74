//go:build !race

package sym

func races() int { return 0 }
