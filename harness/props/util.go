// Package props holds the harnesses: for every property functions named <id>_…,
// each of which builds an arbitrary situation within its bound, runs the real code
// through the public API and compares the outcome with a reference.
package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// Keep is referenced by the replay program.
var Keep = 0

const runeError = '\uFFFD'

// text is an arbitrary text of at most max bytes.
func text(max int) string { return vp.Str(vp.Choose(max + 1)) }

// textBetween is an arbitrary text of min..max bytes.
func textBetween(min, max int) string { return vp.Str(min + vp.Choose(max-min+1)) }

// at is a scanner over t at an arbitrary position, which is returned too.
func at(t string) (*tok.Scanner, int) {
	p := vp.Choose(len(t) + 1)
	s := tok.NewScanner(t)
	if p > 0 {
		s.Move(p)
	}
	return s, p
}

func pos(s *tok.Scanner) int { return int(s.Mark()) }

func cont(b byte) bool { return b&0xC0 == 0x80 }

// dec decodes the rune at t[i:] by the definition of UTF-8; a malformed byte is
// the replacement rune of width 1, the end of the text has width 0.
func dec(t string, i int) (rune, int) {
	n := len(t) - i
	if n <= 0 {
		return runeError, 0
	}
	b0 := t[i]
	if b0 < 0x80 {
		return rune(b0), 1
	}
	if b0 < 0xC2 || b0 > 0xF4 {
		return runeError, 1
	}
	if n < 2 || !cont(t[i+1]) {
		return runeError, 1
	}
	b1 := t[i+1]
	if b0 < 0xE0 {
		return rune(b0&0x1F)<<6 | rune(b1&0x3F), 2
	}
	if b0 < 0xF0 {
		if b0 == 0xE0 && b1 < 0xA0 || b0 == 0xED && b1 > 0x9F {
			return runeError, 1
		}
		if n < 3 || !cont(t[i+2]) {
			return runeError, 1
		}
		return rune(b0&0x0F)<<12 | rune(b1&0x3F)<<6 | rune(t[i+2]&0x3F), 3
	}
	if b0 == 0xF0 && b1 < 0x90 || b0 == 0xF4 && b1 > 0x8F {
		return runeError, 1
	}
	if n < 4 || !cont(t[i+2]) || !cont(t[i+3]) {
		return runeError, 1
	}
	return rune(b0&0x07)<<18 | rune(b1&0x3F)<<12 | rune(t[i+2]&0x3F)<<6 | rune(t[i+3]&0x3F), 4
}

// decLast decodes the rune that ends at t[:p].
func decLast(t string, p int) (rune, int) {
	if p <= 0 {
		return runeError, 0
	}
	for w := 2; w <= 4 && w <= p; w++ {
		if r, n := dec(t[:p], p-w); n == w {
			return r, w
		}
	}
	if b := t[p-1]; b < 0x80 {
		return rune(b), 1
	}
	return runeError, 1
}

// rep is unit n times.
func rep(unit string, n int) string {
	if n <= 0 {
		return ""
	}
	t := unit
	for m := 1; m < n; m *= 2 {
		t += t
	}
	return t[:n*len(unit)]
}

// pick is an arbitrary element of l.
func pick(l ...string) string { return l[vp.Choose(len(l))] }

// pickInt is an arbitrary element of l.
func pickInt(l ...int) int { return l[vp.Choose(len(l))] }

// atOf is a scanner over t at one of the given positions.
func atOf(t string, ps ...int) (*tok.Scanner, int) {
	p := pickInt(ps...)
	s := tok.NewScanner(t)
	if p > 0 {
		s.Move(p)
	}
	return s, p
}

// units are characters of every width.
func unit() string { return pick("a", "\u00E9", "\u20AC", "\U0001F600") }
