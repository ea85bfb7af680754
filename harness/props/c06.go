package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// refRunes is the position n runes away from p, or -1.
func refRunes(t string, p, n int) int {
	for n > 0 {
		_, w := dec(t, p)
		if w == 0 {
			return -1
		}
		p += w
		n--
	}
	for n < 0 {
		_, w := decLast(t, p)
		if w == 0 {
			return -1
		}
		p -= w
		n++
	}
	return p
}

// C06_moverunes: all texts of up to 5 bytes (thorough 6), every position, counts from -7 to 7 (that is beyond both ends).
func C06_moverunes() {
	t := text(vp.Bound(5, 6))
	s, p := at(t)
	n := vp.Choose(15) - 7
	ok := s.MoveRunes(n)
	checkStep(ok, pos(s), p, refRunes(t, p, n), "MoveRunes")
}

// C06_anycount: MoveRunes with any 64-bit count outside -5..5 on texts of up to 4 bytes refuses.
func C06_anycount() {
	t := text(4)
	s, p := at(t)
	n := vp.Int()
	vp.Assume(n < -5 || n > 5)
	ok := s.MoveRunes(n)
	checkStep(ok, pos(s), p, -1, "MoveRunes beyond the text")
}

// C06_roundtrip: in a valid UTF-8 text of up to 5 bytes (7) moving n runes forward and back returns to the start.
func C06_roundtrip() {
	t := text(vp.Bound(5, 7))
	p := vp.Choose(len(t) + 1)
	vp.Assume(validUTF8(t[:p]) && validUTF8(t[p:]))
	s := tok.NewScanner(t)
	s.Move(p)
	n := vp.Choose(5)
	if s.MoveRunes(n) {
		ok := s.MoveRunes(-n)
		vp.Assert(ok, "the way back exists")
		vp.Assert(pos(s) == p, "forward and back returns to the start")
	}
	vp.ObserveInt("pos", pos(s))
}

func validUTF8(t string) bool {
	for i := 0; i < len(t); {
		r, n := dec(t, i)
		if r == runeError && n == 1 {
			return false
		}
		i += n
	}
	return true
}

// C06_readrune: all texts of up to 5 bytes (7), every position.
func C06_readrune() {
	t := text(vp.Bound(5, 7))
	s, p := at(t)
	back := vp.Choose(2) == 1
	if back {
		r, err := s.RevReadRune()
		x, n := decLast(t, p)
		want := p - n
		if n == 0 || x == runeError && n == 1 {
			want = -1
		}
		checkStep(err == nil, pos(s), p, want, "RevReadRune")
		if err == nil {
			vp.Assert(r == x, "RevReadRune returns the rune before")
		}
		return
	}
	r, err := s.ReadRune()
	x, n := dec(t, p)
	want := p + n
	if n == 0 || x == runeError && n == 1 {
		want = -1
	}
	checkStep(err == nil, pos(s), p, want, "ReadRune")
	if err == nil {
		vp.Assert(r == x, "ReadRune returns the rune that follows")
	}
}

// C06_scanstring: all texts of up to 5 bytes (7), every position, every 64-bit count.
func C06_scanstring() {
	t := text(vp.Bound(5, 7))
	s, p := at(t)
	n := vp.Int()
	str, ok := s.ScanString(n)
	want := -1
	if n >= 0 && n <= len(t) {
		want = refRunes(t, p, n)
	}
	checkStep(ok, pos(s), p, want, "ScanString")
	if want >= 0 {
		vp.Assert(str == t[p:want], "ScanString returns the runes it moved over")
	}
}

// C06_long: texts of 18 (64) characters of every width with an arbitrary byte in the middle and up to one at the end, MoveRunes and ScanString with every count up to the length and beyond, from both ends and the middle.
func C06_long() {
	u := unit()
	k := vp.Bound(9, 32)
	t := rep(u, k) + vp.Str(1) + rep(u, k) + text(1)
	s, p := atOf(t, 0, k*len(u), len(t))
	n := vp.Choose(2*k + 4)
	if vp.Choose(2) == 0 {
		if vp.Choose(2) == 0 {
			n = -n
		}
		ok := s.MoveRunes(n)
		checkStep(ok, pos(s), p, refRunes(t, p, n), "MoveRunes")
		return
	}
	str, ok := s.ScanString(n)
	want := refRunes(t, p, n)
	checkStep(ok, pos(s), p, want, "ScanString")
	if want >= 0 {
		vp.Assert(str == t[p:want], "ScanString returns the runes it moved over")
	}
}

// C06_far: texts of 300 characters of every width with an arbitrary byte among them, MoveRunes and ScanString over about 64, 128, 255, 256 and all of them, from both ends.
func C06_far() {
	u := unit()
	k := pickInt(0, 127, 299)
	t := rep(u, k) + vp.Str(1) + rep(u, 299-k)
	s, p := atOf(t, 0, len(t))
	n := pickInt(64, 128, 255, 256, 299) + vp.Choose(3)
	if vp.Choose(2) == 0 {
		if p > 0 {
			n = -n
		}
		ok := s.MoveRunes(n)
		checkStep(ok, pos(s), p, refRunes(t, p, n), "MoveRunes")
		return
	}
	str, ok := s.ScanString(n)
	want := refRunes(t, p, n)
	checkStep(ok, pos(s), p, want, "ScanString")
	if want >= 0 {
		vp.Assert(str == t[p:want], "ScanString returns the runes it moved over")
	}
}
