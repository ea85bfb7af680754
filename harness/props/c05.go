package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

var revIf = [4]string{"RevIfRune", "RevIfAnyRune", "RevIfBetween", "RevIfMatch"}
var revTo = [4]string{"RevToRune", "RevToAnyRune", "RevToBetween", "RevToMatch"}
var revWhile = [4]string{"RevWhileRune", "RevWhileAnyRune", "RevWhileBetween", "RevWhileMatch"}

func backward(t string, c class) {
	s, p := at(t)
	backwardAt(s, p, t, c)
}

func backwardAt(s *tok.Scanner, p int, t string, c class) {
	switch vp.Choose(3) {
	case 0:
		ok := c.RevIf(s)
		want := -1
		if r, n := decLast(t, p); n > 0 && c.has(r) {
			want = p - n
		}
		checkStep(ok, pos(s), p, want, revIf[c.kind])
	case 1:
		ok := c.RevTo(s)
		want := -1
		for i := p; i > 0; {
			r, n := decLast(t, i)
			if c.has(r) {
				want = i
				break
			}
			i -= n
		}
		checkStep(ok, pos(s), p, want, revTo[c.kind])
	case 2:
		ok := c.RevWhile(s)
		i := p
		for i > 0 {
			r, n := decLast(t, i)
			if !c.has(r) {
				break
			}
			i -= n
		}
		if i == p {
			i = -1
		}
		checkStep(ok, pos(s), p, i, revWhile[c.kind])
	}
}

// C05_rune: all texts of up to 4 bytes (thorough 6), every position, every rune.
func C05_rune() { backward(text(vp.Bound(4, 6)), anyClass(0, 0)) }

// C05_set: all texts of up to 4 bytes (5), every position, every set of up to 2 bytes (4).
func C05_set() { backward(text(vp.Bound(4, 5)), anyClass(1, vp.Bound(2, 4))) }

// C05_range: all texts of up to 4 bytes (6), every position, every range.
func C05_range() { backward(text(vp.Bound(4, 6)), anyClass(2, 0)) }

// C05_match: all texts of up to 4 bytes (5), every position, every predicate.
func C05_match() { backward(text(vp.Bound(4, 5)), anyClass(3, 0)) }

// C05_long: runs of 9 (36) equal characters of every width between texts of up to one arbitrary byte, all classes (sets of up to 40 members), all operations, from the end, before the last character and from the start.
func C05_long() {
	u := unit()
	n := vp.Bound(9, 36)
	t := text(1) + rep(u, n) + text(1)
	s, p := atOf(t, 0, len(u), len(t)-len(u), len(t))
	backwardAt(s, p, t, longClass())
}

// C05_gap: as C05_long, with an arbitrary byte in the middle of the run and one at the start.
func C05_gap() {
	u := unit()
	n := vp.Bound(5, 18)
	t := text(1) + rep(u, n) + vp.Str(1) + rep(u, n)
	s, p := atOf(t, len(t)-len(u), len(t))
	backwardAt(s, p, t, longClass())
}

// C05_far: one arbitrary byte and a run of 270 equal characters of every width, all classes (sets of up to 74 members), all operations from the end.
func C05_far() {
	u := unit()
	t := vp.Str(1) + rep(u, 270)
	s, p := atOf(t, len(t))
	backwardAt(s, p, t, farClass())
}
