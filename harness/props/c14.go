package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// leafCase is a leaf reader with its meaning: where it ends at a position (-1: it fails there).
type leafCase struct {
	name string
	r    tok.Reader
	end  func(t string, p int) int
}

// oneRune is the meaning of a reader for one rune of a class.
func oneRune(has func(r rune) bool) func(t string, p int) int {
	return func(t string, p int) int {
		if r, n := dec(t, p); n > 0 && has(r) {
			return p + n
		}
		return -1
	}
}

func anyOf(words ...string) func(t string, p int) int {
	return func(t string, p int) int {
		for _, w := range words {
			if hasAt(t, p, w) {
				return p + len(w)
			}
		}
		return -1
	}
}

// uchar is an arbitrary rune that can stand in a string.
func uchar() rune {
	r := vp.Rune()
	vp.Assume(0 <= r && r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF))
	return r
}

func within3(a, r, b rune) bool { return a <= r && r <= b }

const nLeafs = 17

// leafOf is an arbitrary instance of leaf reader number k.
func leafOf(k int) leafCase {
	switch k {
	case 0:
		l := text(vp.Bound(3, 4))
		return leafCase{"Lit", tok.Lit(l), anyOf(l)}
	case 1:
		r := vp.Rune()
		return leafCase{"Rune", tok.Rune(r), oneRune(func(x rune) bool { return x == r })}
	case 2:
		set := text(vp.Bound(2, 3))
		return leafCase{"AnyRune", tok.AnyRune(set), oneRune(func(x rune) bool { return inSet(set, x) })}
	case 3:
		a, b := vp.Rune(), vp.Rune()
		return leafCase{"Between", tok.Between(a, b), oneRune(func(x rune) bool { return within3(a, x, b) })}
	case 4:
		a, b := uchar(), uchar()
		str := string(a) + "-" + string(b)
		return leafCase{"BetweenAny", tok.BetweenAny(str), oneRune(func(x rune) bool { return within3(a, x, b) })}
	case 5:
		b := vp.Str(4)
		for i := 0; i < 4; i++ {
			vp.Assume(b[i] < 0x80)
		}
		str := b[0:1] + "-" + b[1:2] + b[2:3] + "-" + b[3:4]
		return leafCase{"BetweenAny of two ranges", tok.BetweenAny(str), oneRune(func(x rune) bool {
			return within3(rune(b[0]), x, rune(b[1])) || within3(rune(b[2]), x, rune(b[3]))
		})}
	case 6:
		a, b, c, d := vp.Rune(), vp.Rune(), vp.Rune(), vp.Rune()
		return leafCase{"BuildBetweenAny", tok.BuildBetweenAny(a, b, c, d), oneRune(func(x rune) bool {
			return within3(a, x, b) || within3(c, x, d)
		})}
	case 7:
		b := vp.Str(2)
		vp.Assume(b[0] < 0x80 && b[1] < 0x80)
		set := text(vp.Bound(2, 3))
		return leafCase{"Set", tok.Set(b[0:1]+"-"+b[1:2], set), oneRune(func(x rune) bool {
			return within3(rune(b[0]), x, rune(b[1])) || inSet(set, x)
		})}
	case 8:
		a, b := vp.Rune(), vp.Rune()
		set := text(vp.Bound(2, 3))
		return leafCase{"Holey", tok.Holey(a, b, set), oneRune(func(x rune) bool { return within3(a, x, b) && !inSet(set, x) })}
	case 9:
		f := vp.RunePred()
		return leafCase{"Match", tok.Match("match", f), oneRune(func(x rune) bool { return f(x) })}
	case 10:
		return leafCase{"Digit", tok.Digit(), oneRune(func(x rune) bool { return within3('0', x, '9') })}
	case 11:
		return leafCase{"HexDigit", tok.HexDigit(), oneRune(func(x rune) bool {
			return within3('0', x, '9') || within3('a', x, 'f') || within3('A', x, 'F')
		})}
	case 12:
		return leafCase{"WS", tok.WS(), oneRune(func(x rune) bool { return x == ' ' || x == '\r' || x == '\n' || x == '\t' })}
	case 13:
		return leafCase{"NL", tok.NL(), anyOf("\n", "\r\n")}
	case 14:
		return leafCase{"AtEnd", tok.AtEnd(), func(t string, p int) int {
			if p == len(t) {
				return p
			}
			return -1
		}}
	case 15:
		l := ascii(text(vp.Bound(2, 3)))
		return leafCase{"Fold", tok.Fold(l), func(t string, p int) int { return refFold(0, t, p, l, foldSame) }}
	}
	l := ascii(text(2))
	m := ascii(text(2))
	return leafCase{"AnyFold", tok.AnyFold(l, m), func(t string, p int) int {
		if e := refFold(0, t, p, l, foldSame); e >= 0 {
			return e
		}
		return refFold(0, t, p, m, foldSame)
	}}
}

// C14_leaf: Lit, Rune, AnyRune, Between, BetweenAny, BuildBetweenAny, Set, Holey, Match, Digit, HexDigit, WS, NL, AtEnd, Fold and AnyFold with arbitrary parameters (literals of up to 3 (4) bytes, sets of 2 (3) bytes, any runes) on every text of up to 4 (6) bytes, any position.
func C14_leaf() {
	l := leafOf(vp.Choose(nLeafs))
	t := text(vp.Bound(4, 6))
	s, p := at(t)
	err := l.r.Read(s)
	checkStep(err == nil, pos(s), p, l.end(t, p), l.name)
}

// C14_values: Bool, Int and Uint read what ReadBool, ReadInt and ReadUint read and store the value; every text of up to 4 (6) bytes.
func C14_values() {
	t := text(vp.Bound(4, 6))
	p := vp.Choose(len(t) + 1)
	s := tok.NewScanner(t)
	s.Move(p)
	base := anyBase()
	size := []int{8, 64}[vp.Choose(2)]
	switch vp.Choose(3) {
	case 0:
		f := []string{"l", "U", "Cc", "*", ""}[vp.Choose(5)]
		r := tok.Bool(f)
		err := r.Read(s)
		v, want := refBool(t, p, f)
		checkStep(err == nil, pos(s), p, want, "Bool")
		vp.Assert(err != nil || r.Value == v, "Bool stores the value")
	case 1:
		r := tok.Int(base, size)
		err := r.Read(s)
		i := p
		neg := false
		if i < len(t) && (t[i] == '-' || t[i] == '+') {
			neg = t[i] == '-'
			i++
		}
		lo, hi := limits(size)
		lim := hi
		if neg {
			lim = lo
		}
		m, e := refDigits(t, i, base, lim)
		want := e
		if e == i {
			want = -1
		}
		checkStep(err == nil, pos(s), p, want, "Int")
		x := int64(m)
		if neg {
			x = -x
		}
		vp.Assert(err != nil || r.Value == x, "Int stores the value")
	case 2:
		r := tok.Uint(base, size)
		err := r.Read(s)
		lo, hi := limits(size)
		m, e := refDigits(t, p, base, lo+hi)
		want := e
		if e == p {
			want = -1
		}
		checkStep(err == nil, pos(s), p, want, "Uint")
		vp.Assert(err != nil || r.Value == m, "Uint stores the value")
	}
}

// wideLeaf is a leaf reader with many or long parameters, some of them arbitrary.
func wideLeaf(k int) leafCase {
	switch k {
	case 0: // up to 8 ranges, two of them arbitrary
		b := vp.Str(4)
		for i := 0; i < 4; i++ {
			vp.Assume(b[i] < 0x80)
		}
		m := pickInt(0, 2, 6)
		str := b[0:1] + "-" + b[1:2] + "b-dp-qu-v0-1\u00e0-\u00ef\u2000-\u20ff"
		cuts := []int{0, 3, 6, 9, 12, 17, 24}
		str = str[:3+cuts[m]] + b[2:3] + "-" + b[3:4]
		los := []rune{'b', 'p', 'u', '0', 0xe0, 0x2000}
		his := []rune{'d', 'q', 'v', '1', 0xef, 0x20ff}
		return leafCase{"BetweenAny of many ranges", tok.BetweenAny(str), oneRune(func(x rune) bool {
			in := within3(rune(b[0]), x, rune(b[1])) || within3(rune(b[2]), x, rune(b[3]))
			for i := 0; i < m; i++ {
				in = in || within3(los[i], x, his[i])
			}
			return in
		})}
	case 1:
		a, b := vp.Rune(), vp.Rune()
		rs := []rune{'b', 'd', 'f', 'h', 'j', 'l', 'n', 'n', 'p', 'r', 0x100, 0x17f}
		n := 2 * pickInt(3, 6)
		all := append(append([]rune{}, rs[:n]...), a, b)
		return leafCase{"BuildBetweenAny of many ranges", tok.BuildBetweenAny(all...), oneRune(func(x rune) bool {
			in := within3(a, x, b)
			for i := 0; i < n; i += 2 {
				in = in || within3(rs[i], x, rs[i+1])
			}
			return in
		})}
	case 2:
		set := pick("bcdefghijklmnopqrs", "\u00e9\u20ac\U0001F600-+") + text(1) + pick("", "0123456789")
		return leafCase{"AnyRune of many", tok.AnyRune(set), oneRune(func(x rune) bool { return inSet(set, x) })}
	case 3:
		set := pick("bcdefghijklmnopqrs", "\u00e9\u20ac\U0001F600-+") + text(1)
		return leafCase{"Set of many", tok.Set("0-3x-z\u00e0-\u00ef", set), oneRune(func(x rune) bool {
			return within3('0', x, '3') || within3('x', x, 'z') || within3(0xe0, x, 0xef) || inSet(set, x)
		})}
	case 4:
		a, b := vp.Rune(), vp.Rune()
		set := "\u00e9bdfhjlnprtvxz" + text(1)
		return leafCase{"Holey with many holes", tok.Holey(a, b, set), oneRune(func(x rune) bool { return within3(a, x, b) && !inSet(set, x) })}
	case 5:
		return leafCase{"Set without ranges", tok.Set("", "-^]a"), oneRune(func(x rune) bool { return inSet("-^]a", x) })}
	}
	w := []string{"bcd", "Ab", "\u00c9x", "q-9", "bc"}
	l := ascii(text(2))
	all := append(append([]string{}, w...), l)
	return leafCase{"AnyFold of many", tok.AnyFold(all...), func(t string, p int) int {
		for _, x := range all {
			if e := refFold(0, t, p, x, foldSame); e >= 0 {
				return e
			}
		}
		return -1
	}}
}

// C14_wide: BetweenAny and BuildBetweenAny with up to 8 ranges, AnyRune, Set and Holey with up to 30 members, AnyFold with 6 words, each with arbitrary ones among them, on every text of up to 3 (4) bytes.
func C14_wide() {
	l := wideLeaf(vp.Choose(7))
	t := text(vp.Bound(3, 4))
	s, p := at(t)
	err := l.r.Read(s)
	checkStep(err == nil, pos(s), p, l.end(t, p), l.name)
}

// C14_long: Lit, Fold and AnyFold with words of 8, 17, 40, 70 and 300 bytes with one arbitrary byte, on a text of the same length and up to one byte more with one arbitrary byte, and cut short.
func C14_long() {
	n := pickInt(8, 17, 40, 70, 300)
	base := rep("aB", 150)[:n]
	i := pickInt(0, n/2, n-1)
	w := base[:i] + ascii(vp.Str(1)) + base[i+1:]
	j := pickInt(0, n/2, n-1)
	t := base[:j] + ascii(vp.Str(1)) + base[j+1:]
	t = pick("", "b") + t[:n-vp.Choose(2)] + pick("", "b")
	s, p := atOf(t, 0, 1)
	switch vp.Choose(3) {
	case 0:
		err := tok.Lit(w).Read(s)
		checkStep(err == nil, pos(s), p, anyOf(w)(t, p), "Lit")
	case 1:
		err := tok.Fold(w).Read(s)
		checkStep(err == nil, pos(s), p, refFold(0, t, p, w, foldAscii), "Fold")
	case 2:
		err := tok.AnyFold("zz", w).Read(s)
		checkStep(err == nil, pos(s), p, refFold(0, t, p, w, foldAscii), "AnyFold")
	}
}

// C14_reuse: the same leaf reader used twice, in two texts of up to 2 (3) bytes at any position.
func C14_reuse() {
	l := leafOf(vp.Choose(nLeafs))
	l.r.Read(tok.NewScanner(text(vp.Bound(1, 2))))
	t := text(vp.Bound(2, 3))
	s, p := at(t)
	err := l.r.Read(s)
	checkStep(err == nil, pos(s), p, l.end(t, p), l.name+" used again")
}
