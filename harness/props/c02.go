package props

import "github.com/aiq/tok/zzverif/vp"

// hasAt tells whether pat stands at t[i:].
func hasAt(t string, i int, pat string) bool {
	if i < 0 || i+len(pat) > len(t) {
		return false
	}
	for k := 0; k < len(pat); k++ {
		if t[i+k] != pat[k] {
			return false
		}
	}
	return true
}

// checkStep asserts outcome and position of an operation that should end at want, or refuse if want < 0.
func checkStep(ok bool, q, p, want int, label string) {
	vp.ObserveBool("ok", ok)
	vp.ObserveInt("pos", q)
	if want >= 0 {
		vp.Assert(ok, label+": succeeds")
		vp.Assert(q == want, label+": stops at the right place")
	} else {
		vp.Assert(!ok, label+": refuses")
		vp.Assert(q == p, label+": a refusal does not move")
	}
}

// C02_if: If on all texts of up to 8 bytes (thorough 9) at every position with all patterns of up to 5 (6) bytes.
func C02_if() {
	t := text(vp.Bound(8, 9))
	s, p := at(t)
	pat := text(vp.Bound(5, 6))
	ok := s.If(pat)
	want := -1
	if hasAt(t, p, pat) {
		want = p + len(pat)
	}
	checkStep(ok, pos(s), p, want, "If")
}

// C02_revif: RevIf, bounds as for If.
func C02_revif() {
	t := text(vp.Bound(8, 9))
	s, p := at(t)
	pat := text(vp.Bound(5, 6))
	ok := s.RevIf(pat)
	want := -1
	if p-len(pat) >= 0 && hasAt(t[:p], p-len(pat), pat) {
		want = p - len(pat)
	}
	checkStep(ok, pos(s), p, want, "RevIf")
}

// C02_ifany: IfAny and RevIfAny with up to 3 alternatives of up to 3 bytes (4) on texts of up to 5 bytes (6).
func C02_ifany() {
	t := text(vp.Bound(5, 6))
	s, p := at(t)
	n := vp.Choose(4)
	alts := []string{}
	for i := 0; i < n; i++ {
		alts = append(alts, text(vp.Bound(3, 4)))
	}
	want := -1
	if vp.Choose(2) == 0 {
		ok := s.IfAny(alts...)
		for _, a := range alts {
			if hasAt(t, p, a) {
				want = p + len(a)
				break
			}
		}
		checkStep(ok, pos(s), p, want, "IfAny")
	} else {
		ok := s.RevIfAny(alts)
		for _, a := range alts {
			if p-len(a) >= 0 && hasAt(t[:p], p-len(a), a) {
				want = p - len(a)
				break
			}
		}
		checkStep(ok, pos(s), p, want, "RevIfAny")
	}
}

// C02_to: To on all texts of up to 8 bytes (9) at every position with all patterns of up to 4 (5) bytes.
func C02_to() {
	t := text(vp.Bound(8, 9))
	s, p := at(t)
	pat := text(vp.Bound(4, 5))
	ok := s.To(pat)
	checkStep(ok, pos(s), p, refTo(t, p, pat), "To")
}

func refTo(t string, p int, pat string) int {
	for i := p; i+len(pat) <= len(t); i++ {
		if hasAt(t, i, pat) {
			return i
		}
	}
	return -1
}

// C02_revto: RevTo on all texts of up to 7 bytes (8) at every position with all patterns of up to 4 (5) bytes.
func C02_revto() {
	t := text(vp.Bound(7, 8))
	s, p := at(t)
	pat := text(vp.Bound(4, 5))
	ok := s.RevTo(pat)
	checkStep(ok, pos(s), p, refRevTo(t, p, pat), "RevTo")
}

func refRevTo(t string, p int, pat string) int {
	for i := p; i-len(pat) >= 0; i-- {
		if hasAt(t, i-len(pat), pat) {
			return i
		}
	}
	return -1
}

// C02_long: periodic texts of 9, 20, 40, 70 and 300 bytes with one arbitrary byte at the front, in the middle or at the end, patterns of up to 33 bytes (in the longest text also of 65, 129 and 258 bytes) that end in up to one arbitrary byte, If/RevIf/To/RevTo from both ends and the middle.
func C02_long() {
	n := pickInt(8, 19, 39, 69, 299)
	base := rep("ab", 150)[:n]
	k := pickInt(0, n/2, n)
	t := base[:k] + vp.Str(1) + base[k:]
	m := pickInt(1, 7, 8, 16, 32, 64, 128, 257)
	vp.Assume(n == 299 || m <= 32)
	if m > n {
		m = n
	}
	pat := base[:m] + text(1)
	s, p := atOf(t, 0, 1, len(t)/2, len(t))
	switch vp.Choose(4) {
	case 0:
		ok := s.If(pat)
		want := -1
		if hasAt(t, p, pat) {
			want = p + len(pat)
		}
		checkStep(ok, pos(s), p, want, "If")
	case 1:
		ok := s.RevIf(pat)
		want := -1
		if p-len(pat) >= 0 && hasAt(t, p-len(pat), pat) {
			want = p - len(pat)
		}
		checkStep(ok, pos(s), p, want, "RevIf")
	case 2:
		ok := s.To(pat)
		checkStep(ok, pos(s), p, refTo(t, p, pat), "To")
	case 3:
		ok := s.RevTo(pat)
		checkStep(ok, pos(s), p, refRevTo(t, p, pat), "RevTo")
	}
}

// C02_many: IfAny and RevIfAny with 5, 9, 17, 70 and 270 alternatives, the last two and one earlier one arbitrary texts of up to 2 bytes, on texts of up to 2 bytes on either side of the position.
func C02_many() {
	n := pickInt(5, 9, 17, 70, 270)
	alts := []string{}
	for i := 0; i < n; i++ {
		alts = append(alts, rep("x", i%3)+"yz")
	}
	alts[n/2] = text(1)
	alts[n-2] = text(2)
	alts[n-1] = text(2)
	l, r := text(2), text(2)
	t := l + r
	p := len(l)
	s, _ := atOf(t, p)
	want := -1
	if vp.Choose(2) == 0 {
		ok := s.IfAny(alts...)
		for _, a := range alts {
			if hasAt(t, p, a) {
				want = p + len(a)
				break
			}
		}
		checkStep(ok, pos(s), p, want, "IfAny")
	} else {
		ok := s.RevIfAny(alts)
		for _, a := range alts {
			if p-len(a) >= 0 && hasAt(t[:p], p-len(a), a) {
				want = p - len(a)
				break
			}
		}
		checkStep(ok, pos(s), p, want, "RevIfAny")
	}
}
