package vxm

import (
	"strings"
	"unicode"
)

func asciiCase(s string, lo byte, f func(rune) rune) string {
	b := []byte(s)
	if isConst(b) {
		return strings.Map(f, s)
	}
	hi := false
	for _, c := range b {
		hi = or2(hi, c >= 0x80)
	}
	if concB(hi) {
		return strings.Map(f, s)
	}
	for i, c := range b {
		b[i] = iteByte(c-lo < 26, c^32, c)
	}
	return string(b)
}

//vx:replace strings.ToLower
func toLower(s string) string { return asciiCase(s, 'A', unicode.ToLower) }

//vx:replace strings.ToUpper
func toUpper(s string) string { return asciiCase(s, 'a', unicode.ToUpper) }
