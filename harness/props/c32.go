package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

type oddValue struct{ x int }

// oddArg is a value that is neither rune, string nor Reader, or a reader that is invalid itself.
func oddArg() interface{} {
	switch vp.Choose(10) {
	case 0:
		return 7
	case 1:
		return nil
	case 2:
		return true
	case 3:
		return byte('a')
	case 4:
		return oddValue{1}
	case 5:
		return []string{"a"}
	case 6:
		return 1.5
	case 7:
		return "a"[0:1][0]
	case 8:
		return tok.InvalidReader("bad %s", "x")
	}
	return tok.BetweenAny("ab")
}

// wrapIn builds another reader around r.
func wrapIn(r tok.Reader) tok.Reader {
	switch vp.Choose(20) {
	case 0:
		return tok.Seq(r, "b")
	case 1:
		return tok.Seq(tok.Opt('x'), r)
	case 2:
		return tok.Any(r, r)
	case 3:
		return tok.SkipSeq(tok.Zom(' '), r)
	case 4:
		return tok.SkipSeq(r, 'b')
	case 5:
		return tok.Many(r)
	case 6:
		return tok.At(r)
	case 7:
		return tok.Times(2, r)
	case 8:
		return tok.To(r)
	case 9:
		return tok.Past(r)
	case 10:
		return tok.Body(r, tok.AtEnd())
	case 11:
		return tok.Body(tok.Zom('a'), r)
	case 12:
		return tok.BodyTail(r, tok.AtEnd())
	case 13:
		return tok.BodyTail(tok.Zom('a'), r)
	case 14:
		b, _ := tok.Janus("j", r)
		return b
	case 15:
		return tok.Map(r, func(tok.Token) {})
	case 16:
		return tok.Pick(r, &tok.Basket{}, "p")
	case 17:
		return tok.Monitor(r, &tok.Log{}, "m")
	case 18:
		return tok.SkipWSSeq('b', r)
	}
	return tok.Seq("a", r, "c")
}

// construct calls a constructor with the argument.
func construct(x interface{}) tok.Reader {
	switch vp.Choose(9) {
	case 0:
		return tok.Any(x, x)
	case 1:
		return tok.Many(x)
	case 2:
		return tok.Past(x)
	case 3:
		return tok.Seq("", x)
	case 4:
		return tok.SkipSeq(tok.Zom(' '), x)
	case 5:
		return tok.To(x)
	case 6, 7:
		if _, ok := x.(tok.Reader); !ok {
			if vp.Bool() {
				return tok.Opt(x)
			}
			return tok.Zom(x)
		}
	}
	return tok.SkipWSSeq(x)
}

func neverReads(r tok.Reader, t string, what string) {
	s, p := at(t)
	err := r.Read(s)
	vp.Assert(err != nil, what+" fails on every text")
	vp.Assert(pos(s) == p, what+" does not move")
}

// C32_argument: constructors with a value that is no rune, string or Reader, alone and inside any other reader; every text of up to 2 (3) bytes, any position.
func C32_argument() {
	x := oddArg()
	r := construct(x)
	what := "a reader with an invalid argument"
	vp.Assert(tok.HasInvalidReader(r.What()), what+" shows it")
	if vp.Bool() {
		r = wrapIn(r)
		what = "a reader built from an invalid reader"
		vp.Assert(tok.HasInvalidReader(r.What()), what+" shows it")
	}
	neverReads(r, text(vp.Bound(2, 3)), what)
}

// C32_visible: also where the invalid part is optional, negated or read 0 times, every reader built from it shows it.
func C32_visible() {
	x := oddArg()
	var r tok.Reader
	switch vp.Choose(9) {
	case 6:
		r = tok.Times(pickInt(0, 1, 300), tok.Many(x))
	case 7:
		r = tok.Zom(tok.Times(0, tok.Seq("a", x)))
	case 8:
		r = tok.At(tok.Not(tok.Opt(x)))
	case 0:
		r = tok.Opt(x)
	case 1:
		r = tok.Zom(x)
	case 2:
		r = tok.Not(tok.Seq(x))
	case 3:
		r = tok.Any("a", x)
	case 4:
		r = tok.Any(tok.Seq("a", tok.Opt(x)), 'b')
	case 5:
		r = tok.Named("n", tok.Seq('a', x))
		vp.Assert(!tok.HasInvalidReader(r.What()), "a name hides what is inside")
		rule := tok.Rule{Name: "r", Reader: tok.Seq('a', x)}
		vp.Assert(tok.HasInvalidReader(rule.Rule()), "the line of a rule shows it")
		vp.Assert(tok.AnyHasInvalidReader([]string{"x", rule.Rule()}), "a list of lines shows it")
		return
	}
	vp.Assert(tok.HasInvalidReader(r.What()), "the description shows the invalid part")
}

func rangesOK(t string) bool {
	rs := []rune{}
	for i := 0; i < len(t); {
		r, w := dec(t, i)
		rs = append(rs, r)
		i += w
	}
	if len(rs)%3 != 0 {
		return false
	}
	for i := 0; i < len(rs); i += 3 {
		if rs[i+1] != '-' {
			return false
		}
	}
	return true
}

// C32_ranges: BetweenAny and Set with every range list of up to 4 (6) bytes, BuildBetweenAny with up to 5 arbitrary runes; texts of up to 2 bytes, any position.
func C32_ranges() {
	var r tok.Reader
	ok := true
	switch vp.Choose(3) {
	case 0:
		l := text(vp.Bound(4, 6))
		ok = rangesOK(l)
		r = tok.BetweenAny(l)
	case 1:
		l := text(vp.Bound(4, 6))
		ok = rangesOK(l)
		r = tok.Set(l, "xyz")
	case 2:
		rs := []rune{}
		for i := vp.Choose(6); i > 0; i-- {
			rs = append(rs, vp.Rune())
		}
		ok = len(rs)%2 == 0
		r = tok.BuildBetweenAny(rs...)
	}
	if ok {
		return
	}
	vp.Assert(tok.HasInvalidReader(r.What()), "a malformed range list shows")
	neverReads(r, text(2), "a malformed range list")
}

// C32_fine: readers with proper arguments are not reported, alone and nested.
func C32_fine() {
	mk := func() tok.Reader {
		switch vp.Choose(14) {
		case 0:
			return tok.BetweenAny("a-zA-Z")
		case 1:
			return tok.Set("0-9", "+-")
		case 2:
			return tok.BuildBetweenAny('a', 'z', '0', '9')
		case 3:
			return tok.BetweenAny("")
		case 4:
			return tok.Lit("INVALID")
		case 5:
			return tok.Int(10, 64)
		case 6:
			return tok.Bool("l")
		case 7:
			return tok.Opt('a')
		case 8:
			return tok.Any("a", 'b', tok.WS())
		case 9:
			return tok.Holey('a', 'z', "x")
		case 10:
			return tok.AnyFold("a", "b")
		case 11:
			return tok.Not(tok.NL())
		case 12:
			return tok.Match("what", func(rune) bool { return true })
		}
		return tok.Zom(tok.Between(0, '\U0010FFFF'))
	}
	r := mk()
	if vp.Bool() {
		r = wrapIn(r)
	}
	vp.Assert(!tok.HasInvalidReader(r.What()), "proper readers are not reported")
}

// C32_wide: an invalid argument or reader at any place of up to 9 (20) and near the ends and the middle of 70 and 270 elements of Seq, Any and SkipSeq.
func C32_wide() {
	k := 1 + vp.Choose(vp.Bound(9, 20)+1)
	i := 0
	if k <= vp.Bound(9, 20) {
		i = vp.Choose(k)
	} else {
		k = pickInt(70, 270)
		i = pickInt(0, k/2, k-2, k-1)
	}
	var odd interface{} = 7
	switch vp.Choose(3) {
	case 0:
		odd = tok.InvalidReader("bad")
	case 1:
		odd = tok.Seq("a", tok.Opt(tok.BetweenAny("ab")))
	}
	fine, list := []interface{}{}, []interface{}{}
	for j := 0; j < k; j++ {
		var x interface{} = "a"
		if j%3 == 1 {
			x = 'a'
		} else if j%3 == 2 {
			x = tok.Many("a")
		}
		fine = append(fine, x)
		if j == i {
			x = odd
		}
		list = append(list, x)
	}
	mk := func(list []interface{}) tok.Reader { return tok.Seq(list...) }
	switch vp.Choose(4) {
	case 0:
		mk = func(list []interface{}) tok.Reader { return tok.Any(list...) }
	case 1:
		mk = func(list []interface{}) tok.Reader { return tok.SkipSeq(tok.WS(), list...) }
	case 2:
		mk = func(list []interface{}) tok.Reader { return tok.SkipWSSeq(list...) }
	}
	vp.Assert(tok.HasInvalidReader(mk(list).What()), "an invalid element at any place shows")
	vp.Assert(!tok.HasInvalidReader(mk(fine).What()), "many proper elements are not reported")
}

// C32_deep: an invalid reader below up to 12 (30), 40 and 70 levels of other readers.
func C32_deep() {
	r := tok.Seq(7)
	if vp.Bool() {
		r = tok.BetweenAny("a")
	}
	k := 1 + vp.Choose(vp.Bound(12, 30)+1)
	if k > vp.Bound(12, 30) {
		k = pickInt(40, 70)
	}
	turn := vp.Choose(8)
	for i := 0; i < k; i++ {
		switch (i + turn) % 8 {
		case 0:
			r = tok.Seq("a", r)
		case 1:
			r = tok.Any("a", r, "b")
		case 2:
			r = tok.Opt(r)
		case 3:
			r = tok.Not(r)
		case 4:
			r = tok.SkipSeq(tok.WS(), r)
		case 5:
			r = tok.Times(3, r)
		case 6:
			r = tok.Past(r)
		case 7:
			r = tok.Monitor(r, &tok.Log{}, "m")
		}
	}
	vp.Assert(tok.HasInvalidReader(r.What()), "an invalid reader at any depth shows")
}

// C32_marker: HasInvalidReader reports the marker, or texts in which one byte of it is arbitrary, between any texts of up to 2 bytes; AnyHasInvalidReader reports it in any line of up to 4, and near the ends and in the middle of 70 and 270 lines.
func C32_marker() {
	m := tok.InvalidReaderMarker
	line := m
	there := true
	if vp.Bool() {
		i := vp.Choose(len(m))
		b := vp.Byte()
		line = m[:i] + string([]byte{b}) + m[i+1:]
		there = b == m[i]
	}
	line = text(2) + line + text(2)
	vp.Assert(tok.HasInvalidReader(line) == there, "exactly texts with the marker are reported")
	n := vp.Choose(5)
	if n == 0 {
		n = pickInt(0, 70, 270)
	}
	i := 0
	if n > 4 {
		i = pickInt(0, n/2, n-2, n-1)
	} else if n > 0 {
		i = vp.Choose(n)
	}
	lines := []string{}
	for j := 0; j < n; j++ {
		if j == i {
			lines = append(lines, line)
		} else {
			lines = append(lines, "name: 'a' \"b\"")
		}
	}
	vp.Assert(tok.AnyHasInvalidReader(lines) == (there && n > 0), "a list is reported if a line is")
}
