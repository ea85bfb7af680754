package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

func checkUint(t string, s *tok.Scanner, p, base, size int) {
	v, err := s.ReadUint(base, size)
	lo, hi := limits(size)
	m, e := refDigits(t, p, base, lo+hi)
	want := e
	if e == p {
		want = -1
	}
	checkStep(err == nil, pos(s), p, want, "ReadUint")
	if err == nil {
		vp.Assert(v == m, "ReadUint returns the value of what it read")
		vp.Assert(v <= lo+hi, "ReadUint stays in the range of the bit size")
		vp.ObserveInt("value", int(v))
	}
}

// C08_uint: every base and bit size; every text (all bytes symbolic) up to two bytes longer than the longest numeral of the size (32 bits: one in the quick tier; 64 bits: up to five, thorough two, bytes shorter), after 0 or 1 other bytes.
func C08_uint() {
	base := anyBase()
	size := []int{8, 16, 32, 64}[vp.Choose(4)]
	t, p := numeralText(base, size)
	s := tok.NewScanner(t)
	s.Move(p)
	checkUint(t, s, p, base, size)
}

// C08_limit: 64 bits around the limit: the digits of the limit without the last two (four), changed by -1, 0 or 1, then three (five) symbolic bytes.
func C08_limit() {
	base := anyBase()
	t := limitText(^uint64(0), base, vp.Bound(2, 4))
	checkUint(t, tok.NewScanner(t), 0, base, 64)
}

// C08_big: 64 bits, numerals of about 20 digits: two symbolic bytes, then a run of zeros or of the greatest digit.
func C08_big() {
	base := anyBase()
	t := bigText(base)
	checkUint(t, tok.NewScanner(t), 0, base, 64)
}

// C08_zeros: leading zeros: 1 to 25 (40), 70 and 300 zeros before 2 symbolic bytes.
func C08_zeros() {
	base := anyBase()
	size := []int{8, 16, 32, 64}[vp.Choose(4)]
	t := ""
	n := vp.Choose(vp.Bound(25, 40)+2) + 1
	if n > vp.Bound(25, 40) {
		n = pickInt(70, 300)
	}
	t += rep("0", n)
	t += vp.Str(2)
	checkUint(t, tok.NewScanner(t), 0, base, size)
}

// C08_args: every other base or bit size (any 64-bit values) is rejected without moving.
func C08_args() {
	t := text(3)
	s, p := at(t)
	base, size := vp.Int(), vp.Int()
	good := (base == 8 || base == 10 || base == 16) && (size == 8 || size == 16 || size == 32 || size == 64)
	vp.Assume(!good)
	_, err := s.ReadUint(base, size)
	vp.Assert(err != nil, "ReadUint rejects other bases and bit sizes")
	vp.Assert(pos(s) == p, "a rejected ReadUint does not move")
}
