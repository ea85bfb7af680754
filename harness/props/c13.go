package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

var lookCombs = []kind{kAt, kNot, kTo, kPast}

// C13_look: At, Not, To and Past over an arbitrary sub-reader; every text of up to 4 (5) bytes, well-formed or not, any position.
func C13_look() {
	t := text(vp.Bound(4, 5))
	x := anyComb(lookCombs, 1, func() *node { return leaf(&stub{n: len(t)}) })
	w := &world{text: t}
	s, p := at(t)
	err := w.build(x).Read(s)
	checkRead(s, p, err, w.ref(x, p), kindName[x.k])
}

// C13_nested: the look-ahead and search readers over each other and over repetitions, texts of 2 bytes.
func C13_nested() {
	t := blank(2)
	mk := func() *node { return leaf(&stub{n: len(t)}) }
	x := anyComb(lookCombs, 1, func() *node {
		return anyComb([]kind{kAt, kNot, kTo, kPast, kOpt, kMany, kZom, kSeq, kAny}, 2, mk)
	})
	runTree(t, x, kindName[x.k]+" of combinators")
}

// refBody finds the first place at or after p where tail succeeds and requires body to
// read everything before it.
func refBody(t string, p int, body, tail func(t string, p int) int) (int, int) {
	for q := p; ; {
		if e := tail(t, q); e >= 0 {
			if body(t[:q], p) == q {
				return q, e
			}
			return -1, -1
		}
		_, w := dec(t, q)
		if w == 0 {
			return -1, -1
		}
		q += w
	}
}

// bodyReader is one of a few readers for a body with a function that says where it ends (-1: fails).
func bodyReader() (tok.Reader, func(t string, p int) int) {
	r := vp.Rune()
	run := func(t string, p int) int {
		for {
			x, w := dec(t, p)
			if w == 0 || x != r {
				return p
			}
			p += w
		}
	}
	switch vp.Choose(5) {
	case 0:
		return tok.Zom(r), run
	case 1:
		return tok.Many(r), func(t string, p int) int {
			if q := run(t, p); q > p {
				return q
			}
			return -1
		}
	case 2:
		return tok.Opt(r), func(t string, p int) int {
			if x, w := dec(t, p); w > 0 && x == r {
				return p + w
			}
			return p
		}
	case 3:
		return tok.Seq(tok.Zom(r), tok.AtEnd()), func(t string, p int) int {
			if q := run(t, p); q == len(t) {
				return q
			}
			return -1
		}
	}
	return tok.Not(tok.Rune(r)), func(t string, p int) int {
		x, w := dec(t, p)
		if w > 0 && x != r {
			return p + w
		}
		return -1
	}
}

// C13_body: Body and BodyTail with an arbitrary tail reader (any outcome at any position, moving anywhere before failing) and bodies made of one arbitrary rune (run, non-empty run, optional, run to the end, one other rune); every text of up to 3 (4) bytes, any position.
func C13_body() {
	t := text(vp.Bound(3, 4))
	st := &stub{n: len(t)}
	tail := func(t string, p int) int {
		if o := st.at(p); o.ok {
			return o.end
		}
		return -1
	}
	b, bref := bodyReader()
	s, p := at(t)
	withTail := vp.Bool()
	var r tok.Reader
	if withTail {
		r = tok.BodyTail(b, st.reader())
	} else {
		r = tok.Body(b, st.reader())
	}
	err := r.Read(s)
	q, e := refBody(t, p, bref, tail)
	want := result{ok: q >= 0, end: q}
	name := "Body"
	if withTail {
		want.end, name = e, "BodyTail"
	}
	checkRead(s, p, err, want, name)
}

// C13_real: At, Not, To and Past over real literals (arbitrary, of up to 2 bytes), runes, sets and the end of the text, given as readers or as plain values; every text of up to 3 (4) bytes, any position.
func C13_real() {
	x := anyComb(lookCombs, 1, realLeaf)
	runReal(text(vp.Bound(3, 4)), x, kindName[x.k]+" of a real reader")
}

// C13_tree: At, Not, To and Past over every combinator over literals, texts of up to 4 (5) characters out of a, b and c.
func C13_tree() {
	x := anyComb(lookCombs, 1, func() *node {
		return oneComb(allCombs[vp.Choose(len(allCombs))], 2, abLeaf)
	})
	if vp.Bool() {
		x = comb(kSeq, x, abLeaf())
	}
	runReal(mostOf("abc", vp.Bound(3, 5)), x, kindName[x.k]+" of combinators of real readers")
}

// C13_far: To, Past, Body and BodyTail over up to 40 (300), 70, 130 and 300 characters of 1 to 4 bytes before the place they look for.
func C13_far() {
	c := []string{"x", "\u00e4", "\u20ac", "\U0001F600", "\n", "\xff"}[vp.Choose(6)]
	k := vp.Choose(vp.Bound(40, 300) + 2)
	if k > vp.Bound(40, 300) {
		k = pickInt(70, 130, 300)
	}
	t := rep(c, k)
	q := len(t)
	t += "ab" + text(1)
	var r tok.Reader
	end, name := q, ""
	switch vp.Choose(6) {
	case 0:
		r, name = tok.To("ab"), "To"
	case 1:
		r, end, name = tok.Past("ab"), q+2, "Past"
	case 2:
		r, name = tok.To('a'), "To"
	case 3:
		r, end, name = tok.Past(tok.Lit("ab")), q+2, "Past"
	case 4:
		r, name = tok.Body(tok.Zom(tok.Lit(c)), tok.Lit("ab")), "Body"
	case 5:
		r, end, name = tok.BodyTail(tok.Zom(tok.Lit(c)), tok.Lit("ab")), q+2, "BodyTail"
	}
	s := tok.NewScanner(t)
	err := r.Read(s)
	vp.Assert(err == nil, name+" finds a far place")
	vp.Assert(pos(s) == end, name+" ends at a far place")
}

// C13_reuse: the same look-ahead or search used twice, in different texts of up to 3 characters or at different places.
func C13_reuse() {
	x := anyComb(lookCombs, 1, abLeaf)
	reuse(x, vp.Bound(3, 4), kindName[x.k])
}

// C13_bodyagain: the same Body or BodyTail used twice, in different texts of up to 3 (4) characters out of a, b and c.
func C13_bodyagain() {
	withTail := vp.Bool()
	body, end := tok.Zom('a'), tok.Any('b', tok.AtEnd())
	r := tok.Body(body, end)
	if withTail {
		r = tok.BodyTail(body, end)
	}
	for i := 0; i < 2; i++ {
		t := mostOf("abc", vp.Bound(3, 4))
		s, p := at(t)
		err := r.Read(s)
		q := p
		for q < len(t) && t[q] == 'a' {
			q++
		}
		want := result{ok: q == len(t) || t[q] == 'b', end: q}
		if withTail && q < len(t) {
			want.end++
		}
		checkRead(s, p, err, want, "Body or BodyTail used again")
	}
}
