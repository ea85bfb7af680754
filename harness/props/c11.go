package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

var pegCombs = []kind{kSeq, kSkip, kAny, kOpt, kTimes}

func runTree(t string, x *node, name string) {
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	s, p := start(t)
	err := w.build(x).Read(s)
	checkRead(s, p, err, w.ref(x, p), name)
	vp.ObserveBool("ok", err == nil)
	vp.ObserveInt("pos", pos(s))
}

// C11_peg: Seq and Any over 0 to 3 (4), SkipSeq over 0 to 3 (4) elements, Opt and Times(-1..4 (5)) over arbitrary sub-readers, texts of 5 (8) bytes, any position.
func C11_peg() {
	n := vp.Bound(5, 8)
	x := anyComb(pegCombs, vp.Bound(3, 4), func() *node { return leaf(&stub{n: n}) })
	runTree(blank(n), x, kindName[x.k])
}

// C11_same: the same sub-reader in several places of Seq, SkipSeq and Any.
func C11_same() {
	n := vp.Bound(4, 6)
	st := &stub{n: n}
	x := anyComb(pegCombs, 3, func() *node { return leaf(st) })
	runTree(blank(n), x, kindName[x.k]+" of one reader")
}

// C11_nested: the combinators over the combinators over arbitrary sub-readers, texts of 3 bytes.
func C11_nested() {
	n := 3
	w := vp.Bound(2, 3)
	x := anyComb(pegCombs, w, func() *node {
		return anyComb(pegCombs, 2, func() *node { return leaf(&stub{n: n}) })
	})
	runTree(blank(n), x, kindName[x.k]+" of combinators")
}

// C11_args: runes and strings as arguments behave as Rune and Lit, SkipWSSeq as SkipSeq(Zom(WS())): every text of up to 3 (4) bytes, any position.
func C11_args() {
	t := text(vp.Bound(3, 4))
	r := vp.Rune()
	l := textBetween(0, 2)
	var a, b tok.Reader
	name := ""
	switch vp.Choose(9) {
	case 0:
		a, b, name = tok.Seq(r, l), tok.Seq(tok.Rune(r), tok.Lit(l)), "Seq"
	case 1:
		a, b, name = tok.Any(l, r), tok.Any(tok.Lit(l), tok.Rune(r)), "Any"
	case 2:
		a, b, name = tok.SkipSeq(tok.Opt(' '), r, l), tok.SkipSeq(tok.Opt(tok.Rune(' ')), tok.Rune(r), tok.Lit(l)), "SkipSeq"
	case 3:
		a, b, name = tok.Opt(r), tok.Opt(tok.Rune(r)), "Opt"
	case 4:
		a, b, name = tok.Many(r), tok.Many(tok.Rune(r)), "Many"
	case 5:
		a, b, name = tok.Zom(l), tok.Zom(tok.Lit(l)), "Zom"
	case 6:
		a, b, name = tok.To(l), tok.To(tok.Lit(l)), "To"
	case 7:
		a, b, name = tok.Past(r), tok.Past(tok.Rune(r)), "Past"
	case 8:
		a, b, name = tok.SkipWSSeq(r, l), tok.SkipSeq(tok.Zom(tok.AnyRune(" \r\n\t")), tok.Rune(r), tok.Lit(l)), "SkipWSSeq"
	}
	p := vp.Choose(len(t) + 1)
	s1, s2 := tok.NewScanner(t), tok.NewScanner(t)
	s1.Move(p)
	s2.Move(p)
	e1, e2 := a.Read(s1), b.Read(s2)
	vp.Assert((e1 == nil) == (e2 == nil), name+": plain values behave as their readers")
	vp.Assert(pos(s1) == pos(s2), name+": plain values move as their readers")
}

func runReal(t string, x *node, name string) {
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	s, p := at(t)
	err := w.build(x).Read(s)
	checkRead(s, p, err, w.ref(x, p), name)
	vp.ObserveBool("ok", err == nil)
	vp.ObserveInt("pos", pos(s))
}

// C11_real: the combinators over real literals, runes and sets, given as readers or as plain values; every text of up to 2 (3) bytes, any position.
func C11_real() {
	x := anyComb(pegCombs, vp.Bound(2, 3), realLeaf)
	runReal(text(vp.Bound(2, 3)), x, kindName[x.k]+" of real readers")
}

// C11_tree: the combinators over one arbitrary combinator and literals of "a" and "b", texts of up to 3 (4) characters out of a, b and c.
func C11_tree() {
	deep := true
	x := anyComb(pegCombs, 2, func() *node {
		if deep && vp.Bool() {
			deep = false
			return oneComb(allCombs[vp.Choose(len(allCombs))], 1, abLeaf)
		}
		return abLeaf()
	})
	runReal(mostOf("abc", vp.Bound(3, 4)), x, kindName[x.k]+" of combinators of real readers")
}

// C11_wide: sequences and alternatives of up to 9 (12) literals; texts of the same number of bytes.
func C11_wide() {
	n := vp.Bound(9, 12)
	k := 4 + vp.Choose(n-3)
	x := &node{k: []kind{kSeq, kAny, kSkip, kTimes}[vp.Choose(4)]}
	for i := 0; i < k; i++ {
		x.sub = append(x.sub, &node{k: kLit, inf: "abcdefghijklmn"[i : i+1], raw: i%2 == 0})
	}
	t := "abcdefghijklmn"[:k]
	switch x.k {
	case kAny:
		t = vp.Str(1)
	case kSkip:
		x.sub[0] = comb(kZom, &node{k: kLit, inf: " "})
		t = "bcdefghijklmn"[:k-1]
	case kTimes:
		x.sub = x.sub[:1]
		x.n = k
		t = blankOf('a', k)
	}
	i := vp.Choose(len(t))
	if x.k != kAny {
		t = t[:i] + vp.Str(1) + t[i:]
	}
	if vp.Bool() {
		t = t[1:]
	}
	w := &world{text: t}
	s := tok.NewScanner(t)
	checkRead(s, 0, w.build(x).Read(s), w.ref(x, 0), "many elements in "+kindName[x.k])
}

func blankOf(c byte, n int) string {
	b := []byte{}
	for ; n > 0; n-- {
		b = append(b, c)
	}
	return string(b)
}

// C11_more: Seq, Any and SkipSeq of 3 to 4 (5) literals "a", "" and "ab", texts of up to 5 (6) characters out of a, b and c.
func C11_more() {
	x := comb([]kind{kSeq, kAny, kSkip}[vp.Choose(3)])
	for i := 3 + vp.Choose(vp.Bound(2, 3)); i > 0; i-- {
		x.sub = append(x.sub, abLeaf())
	}
	if x.k == kSkip {
		x.sub = append([]*node{comb(kOpt, &node{k: kChar, n: 'c', raw: true})}, x.sub...)
	}
	runReal(mostOf("abc", vp.Bound(5, 6)), x, kindName[x.k]+" of several real readers")
}

// reuse reads with the same reader twice, in different texts (up to n characters out of a, b and c) or at different places of one text: an earlier read leaves no traces.
func reuse(x *node, n int, name string) {
	var r tok.Reader
	t := mostOf("abc", n)
	u := t
	if vp.Bool() {
		u = mostOf("abc", n)
	}
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	r = w.build(x)
	s, p := at(t)
	err := r.Read(s)
	checkRead(s, p, err, w.ref(x, p), name)
	w = &world{text: u}
	s, p = at(u)
	err = r.Read(s)
	checkRead(s, p, err, w.ref(x, p), name+" used again")
}

// C11_reuse: the same combinator of literals used twice, in different texts of up to 2 (3) characters or at different places.
func C11_reuse() {
	x := anyComb(pegCombs, 2, abLeaf)
	reuse(x, vp.Bound(2, 3), kindName[x.k])
}

// nested is a reader that contains itself, with its meaning.
func nested(k int) (tok.Reader, func(t string, p int) int) {
	r := &tok.Rule{Name: "r"}
	var ref func(t string, p int) int
	switch k {
	case 0: // r = '(' r ')' / 'x' / ""
		r.Reader = tok.Any(tok.Seq('(', r, ')'), tok.Opt('x'))
		ref = func(t string, p int) int {
			if hasAt(t, p, "(") {
				if e := ref(t, p+1); hasAt(t, e, ")") {
					return e + 1
				}
				return p
			}
			if hasAt(t, p, "x") {
				return p + 1
			}
			return p
		}
	case 1: // r = '(' r* ')'
		r.Reader = tok.Seq('(', tok.Zom(r), ')')
		ref = func(t string, p int) int {
			if !hasAt(t, p, "(") {
				return -1
			}
			p++
			for {
				e := ref(t, p)
				if e < 0 {
					break
				}
				p = e
			}
			if hasAt(t, p, ")") {
				return p + 1
			}
			return -1
		}
	case 2: // r = '(' (r / 'x')+ ')', with blanks anywhere
		r.Reader = tok.SkipSeq(tok.Opt(' '), '(', tok.Many(tok.Any(r, 'x')), tok.Times(1, tok.Lit(")")))
		ref = func(t string, p int) int {
			q := p
			skip := func() {
				if hasAt(t, q, " ") {
					q++
				}
			}
			skip()
			if !hasAt(t, q, "(") {
				return -1
			}
			q++
			skip()
			n := 0
			for {
				e := ref(t, q)
				if e < 0 && hasAt(t, q, "x") {
					e = q + 1
				}
				if e < 0 {
					break
				}
				q = e
				n++
			}
			skip()
			if n == 0 || !hasAt(t, q, ")") {
				return -1
			}
			q++
			skip()
			return q
		}
	case 3: // r = '(' up to the next r or 'x', which is looked at first, then ')'
		r.Reader = tok.Seq('(', tok.At(tok.Any(r, tok.Not(r))), tok.Past(tok.Any(r, 'x')), ')')
		ref = func(t string, p int) int {
			if !hasAt(t, p, "(") {
				return -1
			}
			p++
			if p == len(t) {
				return -1
			}
			for ; p <= len(t); p++ {
				e := ref(t, p)
				if e < 0 && hasAt(t, p, "x") {
					e = p + 1
				}
				if e >= 0 {
					if hasAt(t, e, ")") {
						return e + 1
					}
					return -1
				}
			}
			return -1
		}
	}
	return r, ref
}

// C11_self: readers that contain themselves, in sequences, alternatives, repetitions, look-aheads and searches; every text of up to 6 (8) characters out of parentheses, x and a blank, from the start.
func C11_self() {
	r, ref := nested(vp.Choose(4))
	t := mostOf("()x ", vp.Bound(6, 8))
	s := tok.NewScanner(t)
	err := r.Read(s)
	e := ref(t, 0)
	checkStep(err == nil, pos(s), 0, e, "a reader that contains itself")
}

// C11_far: sequences, skipping sequences and alternatives of 70 and 270 literals, Times of as many; one arbitrary byte instead of a byte at the front, in the middle or at the end of a text that they would read.
func C11_far() {
	k := pickInt(70, 270)
	x := &node{k: []kind{kSeq, kAny, kSkip, kTimes}[vp.Choose(4)]}
	for i := 0; i < k; i++ {
		c := "abcdefghijklmn"[i%14 : i%14+1]
		if x.k == kAny && i < k-1 {
			c = "b" + c
		}
		x.sub = append(x.sub, &node{k: kLit, inf: c, raw: i%2 == 0})
	}
	t := rep("abcdefghijklmn", 20)[:k]
	switch x.k {
	case kAny:
		x.sub[k/2].inf = vp.Str(1)
		t = vp.Str(1)
	case kSkip:
		x.sub[0] = comb(kZom, &node{k: kLit, inf: " "})
		t = t[1:k]
	case kTimes:
		x.sub = x.sub[:1]
		x.n = k
		t = rep("a", k)
	}
	i := pickInt(0, len(t)/2, len(t)-1)
	if x.k != kAny {
		t = t[:i] + vp.Str(1) + t[i+1:]
	}
	if vp.Bool() {
		t = t[:len(t)-1]
	}
	w := &world{text: t}
	s := tok.NewScanner(t)
	checkRead(s, 0, w.build(x).Read(s), w.ref(x, 0), "many elements in "+kindName[x.k])
}
