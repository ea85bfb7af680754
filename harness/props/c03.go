package props

import (
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// foldSame is equality under Unicode simple folding as the standard library defines it.
func foldSame(a, b string) bool { return strings.EqualFold(a, b) }

// ASCII folding: both texts restricted to ASCII, definition by arithmetic.
func lower(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func foldAscii(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lower(a[i]) != lower(b[i]) {
			return false
		}
	}
	return true
}

func ascii(t string) string {
	for i := 0; i < len(t); i++ {
		vp.Assume(t[i] < 0x80)
	}
	return t
}

func refFold(op int, t string, p int, pat string, same func(a, b string) bool) int {
	n := len(pat)
	switch op {
	case 0:
		if p+n <= len(t) && same(t[p:p+n], pat) {
			return p + n
		}
	case 1:
		for i := p; i+n <= len(t); i++ {
			if same(t[i:i+n], pat) {
				return i
			}
		}
	case 2:
		if p-n >= 0 && same(t[p-n:p], pat) {
			return p - n
		}
	case 3:
		for i := p; i-n >= 0; i-- {
			if same(t[i-n:i], pat) {
				return i
			}
		}
	}
	return -1
}

func foldOp(t, pat string, same func(a, b string) bool) {
	s, p := at(t)
	foldOpAt(s, p, t, pat, same)
}

func foldOpAt(s *tok.Scanner, p int, t, pat string, same func(a, b string) bool) {
	op := vp.Choose(4)
	ok := false
	label := ""
	switch op {
	case 0:
		ok = s.IfFold(pat)
		label = "IfFold"
	case 1:
		ok = s.ToFold(pat)
		label = "ToFold"
	case 2:
		ok = s.RevIfFold(pat)
		label = "RevIfFold"
	case 3:
		ok = s.RevToFold(pat)
		label = "RevToFold"
	}
	checkStep(ok, pos(s), p, refFold(op, t, p, pat, same), label)
}

// C03_ascii: all ASCII texts of up to 5 bytes (thorough 6) at every position with all ASCII patterns of up to 3 bytes (4), and longer ones than the rest.
func C03_ascii() {
	t := ascii(text(vp.Bound(5, 6)))
	pat := ascii(text(vp.Bound(3, 4)))
	foldOp(t, pat, foldAscii)
}

// C03_unicode: all texts of up to 3 bytes (4), malformed ones included, with all patterns of up to 2 bytes (3).
func C03_unicode() {
	t := text(vp.Bound(3, 4))
	pat := text(vp.Bound(2, 3))
	foldOp(t, pat, foldSame)
}

// C03_orbit: texts and patterns of one letter with several folds (k/K/Kelvin, s/S/long s, sigma, sharp s) between ASCII bytes.
func C03_orbit() {
	letters := []string{"k", "K", "\u212A", "s", "S", "\u017F", "\u03C3", "\u03C2", "\u03A3", "\u00DF", "\u1E9E", "x"}
	t := text(1) + letters[vp.Choose(len(letters))] + text(1)
	pat := letters[vp.Choose(len(letters))] + text(1)
	foldOp(t, pat, foldSame)
}

// C03_long: periodic texts of 9, 20, 40 and 300 bytes in mixed case with one arbitrary ASCII byte, patterns of up to 18 bytes (in the longest text also of 65 and 258 bytes) that end in up to one arbitrary ASCII byte, all four operations from both ends and the middle.
func C03_long() {
	n := pickInt(8, 19, 39, 299)
	base := rep("aBAb", 75)[:n]
	k := pickInt(0, n/2, n)
	t := base[:k] + ascii(vp.Str(1)) + base[k:]
	m := pickInt(1, 5, 17, 64, 257)
	vp.Assume(n == 299 || m <= 17)
	if m > n {
		m = n
	}
	pat := rep("Ab", 150)[:m] + ascii(text(1))
	s, p := atOf(t, 0, 1, len(t)/2, len(t))
	foldOpAt(s, p, t, pat, foldAscii)
}
