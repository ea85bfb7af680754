package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

var repCombs = []kind{kZom, kMany}

// C12_repeat: Zom and Many over an arbitrary sub-reader, texts of 5 (8) bytes, any position. A read that does not terminate is reported as such.
func C12_repeat() {
	n := vp.Bound(5, 8)
	x := anyComb(repCombs, 1, func() *node { return leaf(&stub{n: n}) })
	runTree(blank(n), x, kindName[x.k])
}

// C12_nested: Zom and Many over and under every other forward combinator, texts of 2 (3) bytes.
func C12_nested() {
	n := vp.Bound(2, 3)
	mk := func() *node { return leaf(&stub{n: n}) }
	var x *node
	if vp.Bool() {
		x = anyComb(repCombs, 1, func() *node {
			return anyComb([]kind{kSeq, kAny, kOpt, kTimes, kZom, kMany, kAt, kNot}, 2, mk)
		})
	} else {
		x = anyComb([]kind{kSeq, kAny, kOpt, kTimes, kAt, kNot, kTo, kPast}, 2, func() *node {
			return anyComb(repCombs, 1, mk)
		})
	}
	runTree(blank(n), x, kindName[x.k]+" of combinators")
}

// C12_real: Zom and Many over real literals (arbitrary, of up to 2 bytes), runes, sets and the end of the text, given as readers or as plain values; every text of up to 4 (5) bytes, any position.
func C12_real() {
	x := anyComb(repCombs, 1, realLeaf)
	runReal(text(vp.Bound(4, 5)), x, kindName[x.k]+" of a real reader")
}

// C12_tree: Zom and Many over every combinator over literals, texts of up to 4 (5) characters out of a, b and c.
func C12_tree() {
	x := anyComb(repCombs, 1, func() *node {
		return oneComb(allCombs[vp.Choose(len(allCombs))], 2, abLeaf)
	})
	if vp.Bool() {
		x = comb(kSeq, x, abLeaf())
	}
	runReal(mostOf("abc", vp.Bound(3, 5)), x, kindName[x.k]+" of combinators of real readers")
}

// C12_long: Zom and Many over a literal, a rune and pairs of them, with up to 40 (300), 70, 130 and 300 matches, followed by an arbitrary byte or the end.
func C12_long() {
	var el *node
	unit := "a"
	switch vp.Choose(4) {
	case 0:
		el = &node{k: kLit, inf: "a", raw: vp.Bool()}
	case 1:
		el = &node{k: kChar, n: 'a', raw: vp.Bool()}
	case 2:
		el, unit = comb(kSeq, &node{k: kLit, inf: "a", raw: true}, &node{k: kChar, n: 'b'}), "ab"
	case 3:
		el = comb(kAny, &node{k: kChar, n: 'c'}, &node{k: kSet, inf: "ab"})
	}
	n := vp.Choose(vp.Bound(40, 300) + 2)
	if n > vp.Bound(40, 300) {
		n = pickInt(70, 130, 300)
	}
	t := rep(unit, n) + text(1)
	x := comb(repCombs[vp.Choose(2)], el)
	w := &world{text: t}
	s := tok.NewScanner(t)
	checkRead(s, 0, w.build(x).Read(s), w.ref(x, 0), "many matches of "+kindName[x.k])
}

// C12_reuse: the same repetition of literals or of a combinator of them used twice, in different texts of up to 3 characters or at different places.
func C12_reuse() {
	x := anyComb(repCombs, 1, abLeaf)
	if vp.Bool() {
		x = comb(x.k, oneComb([]kind{kSeq, kAny, kOpt}[vp.Choose(3)], 2, abLeaf))
	}
	reuse(x, vp.Bound(2, 3), kindName[x.k])
}

// C12_while: Scanner.While with a function of arbitrary behaviour that moves ahead while it reports true and leaves the scanner anywhere when it reports false; texts of 5 (8) bytes, any position.
func C12_while() {
	n := vp.Bound(5, 8)
	s, p := at(blank(n))
	st := &stub{n: n, some: true}
	ok := s.While(func() bool {
		o := st.at(pos(s))
		if o.ok {
			s.ToMarker(tok.Marker(o.end))
		} else {
			s.ToMarker(tok.Marker(o.junk))
		}
		return o.ok
	})
	q := p
	o := st.at(q)
	for o.ok {
		q = o.end
		o = st.at(q)
	}
	vp.Assert(pos(s) == o.junk, "While calls its function until it reports false")
	vp.Assert(ok == (o.junk > p), "While reports if the scanner ended ahead of its start")
}
