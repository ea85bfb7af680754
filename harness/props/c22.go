package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

var fwdCombs = []kind{kSeq, kSkip, kAny, kOpt, kTimes, kZom, kMany, kAt, kNot, kTo, kPast}

// solid are the segments that are not empty.
func solid(segs []tok.Segment) []tok.Segment {
	res := []tok.Segment{}
	for _, s := range segs {
		if s.Len() > 0 {
			res = append(res, s)
		}
	}
	return res
}

func sameSegs(a, b []tok.Segment) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// samePicks compares the picks of a basket with those of the accepted parse. If an empty one was picked in a branch
// that was given up, which stays in the basket (see C22_empty), the empty ones are left out.
func (w *world) samePicks(want []tok.Segment) bool {
	n := 0
	for _, x := range want {
		if x.Len() == 0 {
			n++
		}
	}
	if n == w.empty {
		return sameSegs(w.basket.Picked(), want)
	}
	return sameSegs(solid(w.basket.Picked()), solid(want))
}

// basketRead reads a tree after an earlier pick with a coupled basket and compares the picks after each read.
func basketRead(t string, x *node, name string) {
	s := tok.NewScanner(t)
	w := &world{text: t}
	w.basket = s.NewBasket()
	// something that was read before
	first := tagged(kPick, "first", leaf(&stub{n: len(t), tame: true}))
	s.Use(w.build(first))
	want := w.ref(first, 0).picks
	vp.Assert(w.samePicks(want), name+": a single pick")
	p := pos(s)
	err := s.Use(w.build(x))
	r := w.ref(x, p)
	vp.Assert((err == nil) == r.ok, name+" succeeds exactly when it should")
	if r.ok {
		want = append(want, r.picks...)
		vp.Assert(w.samePicks(want), name+": the basket holds exactly the picks of the accepted parse")
	} else {
		vp.Assert(w.samePicks(want), name+": after a failed read the basket holds what it held before")
	}
}

// C22_combinators: every combinator over up to 2 (3) picking readers around arbitrary sub-readers (which do not go back before their start), texts of 3 bytes, after an earlier pick. Empty picks are left out of the comparison only if one was made in a branch that was given up.
func C22_combinators() {
	const n = 3
	mk := func() *node { return tagged(kPick, "a", leaf(&stub{n: n, fwd: true})) }
	x := anyComb(fwdCombs, vp.Bound(2, 3), mk)
	basketRead(blank(n), x, kindName[x.k])
}

// C22_nested: picks around and below combinators of combinators; texts of 2 bytes.
func C22_nested() {
	const n = 2
	i := 0
	mk := func() *node {
		i++
		return tagged(kPick, "abcdefghijkl"[i:i+1], leaf(&stub{n: n, fwd: true}))
	}
	x := anyComb(fwdCombs, vp.Bound(1, 2), func() *node {
		return tagged(kPick, "x", anyComb(fwdCombs, 2, mk))
	})
	basketRead(blank(n), x, kindName[x.k]+" of combinators")
}

// C22_backtrack: a sequence that is given up after some of its picks inside an alternative, an option, a repetition, a look-ahead or a search; texts of 3 (4) bytes.
func C22_backtrack() {
	n := vp.Bound(3, 4)
	pk := func(i string) *node { return tagged(kPick, i, leaf(&stub{n: n, tame: true})) }
	seq := comb(kSeq, pk("a"), pk("b"))
	var x *node
	switch vp.Choose(8) {
	case 0:
		x = comb(kAny, seq, pk("c"))
	case 1:
		x = comb(kSeq, comb(kOpt, seq), pk("c"))
	case 2:
		x = comb(kSeq, comb(kZom, seq), pk("c"))
	case 3:
		x = comb(kSeq, comb(kAt, seq), pk("c"))
	case 4:
		x = comb(kSeq, comb(kNot, seq), pk("c"))
	case 5:
		x = comb(kSeq, comb(kTo, seq), pk("c"))
	case 6:
		x = comb(kSeq, comb(kPast, seq), pk("c"))
	case 7:
		x = comb(kSeq, pk("c"), comb(kMany, seq))
	}
	basketRead(blank(n), x, "given up sequence")
}

// C22_empty: an alternative that picks an empty segment and then fails must leave nothing behind; texts of 1 byte.
func C22_empty() {
	const n = 1
	s := tok.NewScanner(blank(n))
	w := &world{text: blank(n)}
	w.basket = s.NewBasket()
	x := comb(kAny, comb(kSeq, tagged(kPick, "a", leaf(&stub{n: n, tame: true})), leaf(&stub{n: n, tame: true})), leaf(&stub{n: n, tame: true}))
	err := s.Use(w.build(x))
	r := w.ref(x, 0)
	vp.Assert((err == nil) == r.ok, "succeeds exactly when it should")
	for _, g := range w.basket.Picked() {
		found := false
		for _, h := range r.picks {
			if g == h {
				found = true
			}
		}
		vp.Assert(found || g.Len() == 0, "no pick of an abandoned branch stays")
		vp.Assert(found || g.Len() > 0, "no empty pick of an abandoned branch stays")
	}
}

// C22_body: picks of Body and BodyTail are segments of the text in the order in which they end; every text of up to 3 (4) bytes, any position.
func C22_body() {
	t := text(vp.Bound(3, 4))
	s, p := at(t)
	b := s.NewBasket()
	body, bref := bodyReader()
	c := vp.Rune()
	withTail := vp.Bool()
	rb, rt := tok.Pick(body, b, "body"), tok.Pick(tok.Rune(c), b, "tail")
	r := tok.Body(rb, rt)
	if withTail {
		r = tok.BodyTail(rb, rt)
	}
	err := s.Use(r)
	q, e := refBody(t, p, bref, func(t string, p int) int {
		if x, w := dec(t, p); w > 0 && x == c {
			return p + w
		}
		return -1
	})
	want := []tok.Segment{}
	if err == nil {
		vp.Assert(q >= 0, "succeeds only if it should")
		want = append(want, seg("body", p, q))
		if withTail {
			want = append(want, seg("tail", q, e))
		}
	}
	vp.Assert(sameSegs(solid(b.Picked()), solid(want)), "the picks of body and tail are segments of the text")
}

// C22_inbody: alternatives that are given up after a pick inside of the body and the tail of Body and BodyTail leave nothing behind; every text of up to 6 (7) of the letters a, b, c and d, any position.
func C22_inbody() {
	t := mostOf("abcd", vp.Bound(6, 7))
	s, p := at(t)
	b := s.NewBasket()
	body := tok.Zom(tok.Any(tok.Seq(tok.Pick(tok.Rune('a'), b, "x"), 'b'), tok.Pick(tok.Any('a', 'b'), b, "y")))
	tail := tok.Any(tok.Seq(tok.Pick(tok.Lit("c"), b, "t"), 'd'), tok.Seq(tok.Pick(tok.Lit("d"), b, "u"), 'c'), tok.Pick(tok.Lit("dd"), b, "v"))
	tailAt := func(i int) (tok.Segment, int) {
		switch {
		case hasAt(t, i, "cd"):
			return seg("t", i, i+1), i + 2
		case hasAt(t, i, "dc"):
			return seg("u", i, i+1), i + 2
		case hasAt(t, i, "dd"):
			return seg("v", i, i+2), i + 2
		}
		return tok.Segment{}, -1
	}
	q := p
	for q <= len(t) {
		if _, e := tailAt(q); e >= 0 {
			break
		}
		q++
	}
	want := []tok.Segment{}
	i := p
	for q <= len(t) && i < q {
		if i+1 < q && hasAt(t, i, "ab") {
			want = append(want, seg("x", i, i+1))
			i += 2
		} else if hasAt(t, i, "a") || hasAt(t, i, "b") {
			want = append(want, seg("y", i, i+1))
			i++
		} else {
			break
		}
	}
	ok := q <= len(t) && i == q
	r := tok.Body(body, tail)
	if vp.Bool() {
		r = tok.BodyTail(body, tail)
		if ok {
			g, _ := tailAt(q)
			want = append(want, g)
		}
	}
	if !ok {
		want = want[:0]
	}
	err := s.Use(r)
	vp.Assert((err == nil) == ok, "succeeds exactly when it should")
	vp.Assert(sameSegs(b.Picked(), want), "the basket holds exactly the picks of the body and the tail")
}

// C22_new: NewBasket and NewBasketFor give an empty basket that is coupled to the scanner, whatever was coupled before and wherever the scanner is, and the picks of a read go to the new one alone; texts of 2 (3) bytes.
func C22_new() {
	n := vp.Bound(2, 3)
	t := blank(n)
	s, _ := start(t)
	w := &world{text: t}
	var old *tok.Basket
	if vp.Bool() {
		old = s.NewBasket()
		s.Use(tok.Pick(tok.Opt((&stub{n: n, fwd: true}).reader()), old, "old"))
	}
	was := 0
	if old != nil {
		was = len(old.Picked())
	}
	p := pos(s)
	if vp.Bool() {
		w.basket = s.NewBasket()
	} else {
		w.basket = s.NewBasketFor(&emptyGrammar{})
	}
	vp.Assert(len(w.basket.Picked()) == 0, "a new basket is empty")
	vp.Assert(s.Tracker == tok.Tracker(w.basket), "a new basket is coupled")
	x := comb(kAny, comb(kSeq, tagged(kPick, "a", leaf(&stub{n: n, fwd: true, some: true})), leaf(&stub{n: n, fwd: true})), tagged(kPick, "b", leaf(&stub{n: n, fwd: true})))
	s.Use(w.build(x))
	r := w.ref(x, p)
	vp.Assert(w.samePicks(r.picks), "the picks go to the new basket")
	if old != nil {
		vp.Assert(len(old.Picked()) == was, "the old basket is left alone")
	}
}

type emptyGrammar struct{}

func (*emptyGrammar) Read(*tok.Scanner) error { return nil }
func (*emptyGrammar) What() string            { return "empty" }
func (*emptyGrammar) Grammar() []*tok.Rule    { return nil }

// C22_same: picks with the same info around each other and one after the other, texts of 2 (3) bytes.
func C22_same() {
	n := vp.Bound(2, 3)
	pk := func(x *node) *node { return tagged(kPick, []string{"a", "b"}[vp.Choose(2)], x) }
	mk := func() *node { return leaf(&stub{n: n, fwd: true}) }
	var x *node
	switch vp.Choose(4) {
	case 0:
		x = pk(pk(mk()))
	case 1:
		x = comb(kSeq, pk(mk()), pk(mk()))
	case 2:
		x = pk(comb(kSeq, pk(mk()), comb(kOpt, pk(mk()))))
	case 3:
		x = pk(comb(kZom, pk(pk(mk()))))
	}
	basketRead(blank(n), x, "picks with the same info")
}

// C22_moved: after up to 3 picks in a row the scanner is moved back to any position: exactly the picks that end at or before it stay, moved ahead it keeps all; texts of 4 (6) bytes.
func C22_moved() {
	n := vp.Bound(4, 6)
	t := blank(n)
	s := tok.NewScanner(t)
	w := &world{text: t}
	w.basket = s.NewBasket()
	x := comb(kSeq)
	for i := 1 + vp.Choose(3); i > 0; i-- {
		x.sub = append(x.sub, tagged(kPick, "a", leaf(&stub{n: n, fwd: true, some: true})))
	}
	if vp.Bool() {
		x = tagged(kPick, "b", x)
	}
	err := s.Use(w.build(x))
	r := w.ref(x, 0)
	vp.Assert((err == nil) == r.ok, "succeeds exactly when it should")
	if err != nil {
		return
	}
	m := vp.Choose(n + 1)
	switch vp.Choose(3) {
	case 0:
		s.ToMarker(tok.Marker(m))
	case 1:
		s.Move(m - pos(s))
	case 2:
		s.ToStart()
		m = 0
	}
	want := []tok.Segment{}
	for _, g := range r.picks {
		if g.Len() > 0 && endsBy(g.Token, m) {
			want = append(want, g)
		}
	}
	vp.Assert(pos(s) == m, "moved")
	vp.Assert(sameSegs(solid(w.basket.Picked()), want), "moving back drops exactly the picks that end behind the position")
}

// C22_many: up to 40 (200), 70 and 260 picks in a row, then a branch that is given up after another pick.
func C22_many() {
	k := vp.Choose(vp.Bound(40, 200) + 2)
	if k > vp.Bound(40, 200) {
		k = pickInt(70, 260)
	}
	t := rep("a", k) + text(1)
	s := tok.NewScanner(t)
	w := &world{text: t}
	w.basket = s.NewBasket()
	pk := tagged(kPick, "a", &node{k: kLit, inf: "a"})
	x := comb(kSeq, comb(kZom, comb(kSeq, pk, comb(kOpt, comb(kSeq, pk, &node{k: kLit, inf: "b"})))), comb(kNot, pk))
	s.Use(w.build(x))
	r := w.ref(x, 0)
	vp.Assert(w.samePicks(r.picks), "the basket holds exactly the picks of a long parse")
}

// endsBy tells if the token ends at m or before.
func endsBy(k tok.Token, m int) bool {
	for b := 0; b <= m; b++ {
		for a := 0; a <= b; a++ {
			if k == tok.MakeToken(tok.Marker(a), tok.Marker(b)) {
				return true
			}
		}
	}
	return false
}
