package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

func digit(b byte, base int) int {
	v := 99
	if '0' <= b && b <= '9' {
		v = int(b - '0')
	} else if 'a' <= b && b <= 'f' {
		v = int(b-'a') + 10
	} else if 'A' <= b && b <= 'F' {
		v = int(b-'A') + 10
	}
	if v >= base {
		return -1
	}
	return v
}

// limits of a bit size, as magnitudes of the negative and the positive side.
func limits(size int) (uint64, uint64) {
	m := uint64(1) << uint(size-1)
	return m, m - 1
}

// refDigits reads the longest run of digits at t[p:] whose magnitude stays within
// max and returns the magnitude and the end; the end is p if there is none.
func refDigits(t string, p, base int, max uint64) (uint64, int) {
	b := uint64(base)
	var v uint64
	for p < len(t) {
		d := digit(t[p], base)
		if d < 0 {
			break
		}
		x := uint64(d)
		if v > max/b || v == max/b && x > max%b {
			break
		}
		v = v*b + x
		p++
	}
	return v, p
}

func checkInt(t string, s *tok.Scanner, p, base, size int) {
	v, err := s.ReadInt(base, size)
	i := p
	neg := false
	if i < len(t) && t[i] == '-' {
		neg = true
		i++
	} else if i < len(t) && t[i] == '+' {
		i++
	}
	lo, hi := limits(size)
	lim := hi
	if neg {
		lim = lo
	}
	m, e := refDigits(t, i, base, lim)
	want := e
	if e == i {
		want = -1
	}
	checkStep(err == nil, pos(s), p, want, "ReadInt")
	if err == nil {
		x := int64(m)
		if neg {
			x = -x
		}
		vp.Assert(v == x, "ReadInt returns the value of what it read")
		vp.Assert(size == 64 || v >= -int64(lo) && v <= int64(hi), "ReadInt stays in the range of the bit size")
		vp.ObserveInt("value", int(v))
	}
}

func anyBase() int { return []int{8, 10, 16}[vp.Choose(3)] }

// digitsFor is a text length that is enough to overflow the size in the base.
func digitsFor(base, size int) int {
	switch base {
	case 8:
		return size/3 + 1
	case 16:
		return size / 4
	}
	return size*3/10 + 1
}

// numeralText is an arbitrary text for a numeral: up to two bytes longer than the
// longest numeral of the size (32 bits: one byte longer in the quick tier), for 64 bits
// up to five (thorough: two) bytes shorter than that.
func numeralText(base, size int) (string, int) {
	n := digitsFor(base, size)
	switch size {
	case 8, 16:
		n += 2
	case 32:
		n += vp.Bound(1, 2)
	case 64:
		n -= vp.Bound(5, 2)
	}
	t := text(n)
	p := 0
	if len(t) > 0 && size < 32 {
		p = vp.Choose(2)
	}
	return t, p
}

// showNumber writes v in the base.
func showNumber(v uint64, base int) string {
	s := ""
	for {
		s = string("0123456789abcdef"[v%uint64(base)]) + s
		v /= uint64(base)
		if v == 0 {
			return s
		}
	}
}

// limitText is the numeral of lim with its last k digits replaced by k+1 arbitrary
// bytes, after the part before them was changed by -1, 0 or 1.
func limitText(lim uint64, base, k int) string {
	v := lim
	for i := 0; i < k; i++ {
		v /= uint64(base)
	}
	return showNumber(v+uint64(vp.Choose(3))-1, base) + vp.Str(k+1)
}

// bigText is a numeral of about the length of the longest one of 64 bits: two arbitrary
// bytes, then a run of zeros or of the greatest digit.
func bigText(base int) string {
	n := digitsFor(base, 64) - 3 + vp.Choose(4)
	fill := []string{"0", showNumber(uint64(base-1), base)}[vp.Choose(2)]
	t := vp.Str(2)
	for i := 0; i < n; i++ {
		t += fill
	}
	return t
}

// C07_int: every base and bit size; every text (all bytes symbolic) up to two bytes longer than the longest numeral of the size (32 bits: one in the quick tier; 64 bits: up to five, thorough two, bytes shorter), after 0 or 1 other bytes.
func C07_int() {
	base := anyBase()
	size := []int{8, 16, 32, 64}[vp.Choose(4)]
	t, p := numeralText(base, size)
	s := tok.NewScanner(t)
	s.Move(p)
	checkInt(t, s, p, base, size)
}

// C07_limit: 64 bits around the limits: sign, the digits of the limit without the last two (four), changed by -1, 0 or 1, then three (five) symbolic bytes.
func C07_limit() {
	base := anyBase()
	sign := []string{"", "-", "+"}[vp.Choose(3)]
	lo, hi := limits(64)
	lim := hi
	if sign == "-" {
		lim = lo
	}
	t := sign + limitText(lim, base, vp.Bound(2, 4))
	checkInt(t, tok.NewScanner(t), 0, base, 64)
}

// C07_big: 64 bits, numerals of about 20 digits: sign, two symbolic bytes, then a run of zeros or of the greatest digit.
func C07_big() {
	base := anyBase()
	t := []string{"", "-", "+"}[vp.Choose(3)] + bigText(base)
	checkInt(t, tok.NewScanner(t), 0, base, 64)
}

// C07_zeros: leading zeros: 1 to 25 (40), 70 and 300 zeros between an optional sign and 2 symbolic bytes.
func C07_zeros() {
	base := anyBase()
	size := []int{8, 16, 32, 64}[vp.Choose(4)]
	t := []string{"", "-", "+"}[vp.Choose(3)]
	n := vp.Choose(vp.Bound(25, 40)+2) + 1
	if n > vp.Bound(25, 40) {
		n = pickInt(70, 300)
	}
	t += rep("0", n)
	t += vp.Str(2)
	checkInt(t, tok.NewScanner(t), 0, base, size)
}

// C07_args: every other base or bit size (any 64-bit values) is rejected without moving.
func C07_args() {
	t := text(3)
	s, p := at(t)
	base, size := vp.Int(), vp.Int()
	good := (base == 8 || base == 10 || base == 16) && (size == 8 || size == 16 || size == 32 || size == 64)
	vp.Assume(!good)
	_, err := s.ReadInt(base, size)
	vp.Assert(err != nil, "ReadInt rejects other bases and bit sizes")
	vp.Assert(pos(s) == p, "a rejected ReadInt does not move")
}
