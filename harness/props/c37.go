package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

// nest builds the expected nodes of picks that are listed in the order in which they ended: a pick hangs below the next later one that covers it.
func nest(picks []tok.Segment) []*tok.Node {
	done := []*tok.Node{}
	for _, p := range picks {
		n := &tok.Node{Segment: p}
		i := len(done)
		for i > 0 && p.Covers(done[i-1].Token) {
			i--
		}
		n.Nodes = append(n.Nodes, done[i:]...)
		done = append(done[:i:i], n)
	}
	return done
}

func sameNodes(a, b []*tok.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameNode(a[i], b[i]) {
			return false
		}
	}
	return true
}

// pipeline builds the graph of the picks of a read and tiles the text with its leafs.
func pipeline(s *tok.Scanner, t string, picked []tok.Segment) {
	picks := solid(picked)
	kept := append([]tok.Segment{}, picks...)
	g := tok.BuildGraph("root", picks)
	vp.Assert(sameNodes(g.Root.Nodes, nest(kept)), "the graph nests the picks as the readers were nested")
	vp.Assert(sameSegs(picks, kept), "building a graph leaves the picks alone")
	leafs := g.Leafs()
	tiles, err := s.Segmentate(leafs)
	vp.Assert(err == nil, "the leafs of the graph segmentate the text")
	all := ""
	known := []tok.Segment{}
	for _, x := range tiles {
		all += s.Get(x.Token)
		if x.Known() {
			known = append(known, x)
		}
	}
	vp.Assert(all == t, "the tiles in order are the text")
	vp.Assert(sameSegs(known, leafs), "the known tiles are the leafs")
	if len(picks) > 2 {
		vp.Cover("a graph of several picks")
	}
	sorted := append([]tok.Segment{}, picks...)
	tok.SortSegments(sorted)
	distinct := true
	for i := 1; i < len(sorted); i++ {
		distinct = distinct && sorted[i].Token != sorted[i-1].Token
	}
	if distinct {
		vp.Assert(tok.BuildGraph("root", sorted).Equal(g), "the order of the picks does not matter if no two have the same extent")
	}
}

// C37_readers: combinators of combinators with picks around and below arbitrary forward moving sub-readers; texts of 3 bytes.
func C37_readers() {
	const n = 3
	i := 0
	mk := func() *node {
		i++
		return tagged(kPick, "abcdefghijkl"[i:i+1], leaf(&stub{n: n, fwd: true, some: true}))
	}
	combs := []kind{kSeq, kAny, kOpt, kZom, kTo, kPast}
	x := tagged(kPick, "y", anyComb(combs, 1, func() *node {
		return tagged(kPick, "x", anyComb(combs, vp.Bound(2, 3), mk))
	}))
	s := tok.NewScanner(blank(n))
	w := &world{text: blank(n)}
	w.basket = s.NewBasket()
	if s.Use(w.build(x)) == nil {
		vp.Cover("accepted")
	}
	pipeline(s, blank(n), w.basket.Picked())
}

// C37_json: every text of up to 5 (7) structural JSON characters read with every rule of the grammar picked, or with those of the demo.
func C37_json() {
	t := mostOf("{}[],:\"1 ", vp.Bound(5, 7))
	s := tok.NewScanner(t)
	g := grammar.JSON()
	var b *tok.Basket
	if vp.Bool() {
		b = s.NewBasketFor(g)
	} else {
		b = s.NewBasket()
		b.PickWith(&g.Key, &g.Object, &g.Array, &g.String, &g.Number, &g.Bool, &g.Null)
	}
	s.Use(g)
	pipeline(s, t, b.Picked())
}

// C37_lua: Lua chunks with two arbitrary characters of those that matter, every rule of the grammar picked.
func C37_lua() {
	c := func() string { return oneOf("a1 ;,.(){}=\"-\n:") }
	t := ""
	switch vp.Choose(4) {
	case 0:
		t = "local a" + c() + "b" + c() + "1"
	case 1:
		t = "f" + c() + "x" + c()
	case 2:
		t = "if a then b=c" + c() + "d()" + c() + "end"
	case 3:
		t = "return{" + c() + "1" + c() + "}"
	}
	s := tok.NewScanner(t)
	g := grammar.Lua()
	b := s.NewBasketFor(g)
	s.Use(g)
	pipeline(s, t, b.Picked())
}

// C37_mxt: MXT documents of two chunks with three arbitrary characters, every rule of the grammar picked.
func C37_mxt() {
	c := func() string { return oneOf("ab/-> \n\r") }
	t := "//" + c() + "a-->" + c() + "x\n//" + c() + "b-->\ny"
	s := tok.NewScanner(t)
	g := grammar.MXT()
	b := s.NewBasketFor(g)
	s.Use(g)
	pipeline(s, t, b.Picked())
}

// C37_order: 3 (4) segments in any arrangement (markers below 6 (8)) that do not clash and are neither empty nor equal: the graph is the same in whatever order they are appended.
func C37_order() {
	n := vp.Bound(3, 4)
	spans := tile(n)
	for i, x := range spans {
		vp.Assume(x.a < x.b && x.b < 2*n) // only the order of the markers matters
		for _, y := range spans[:i] {
			vp.Assume(!x.clashes(y) && !x.same(y))
		}
	}
	g := tok.BuildGraph("root", segsOf(spans))
	segs := segsOf(spans)
	i := vp.Choose(len(segs))
	segs[0], segs[i] = segs[i], segs[0]
	if vp.Bool() {
		k := len(segs) - 1
		segs[1], segs[k] = segs[k], segs[1]
	}
	vp.Assert(tok.BuildGraph("root", segs).Equal(g), "the graph does not depend on the order of the segments")
	tok.SortSegments(segs)
	vp.Assert(tok.BuildGraph("root", segs).Equal(g), "the graph of sorted segments is the same")
}

// C37_long: a list of 20 and 34 (44) words with an arbitrary byte in the middle, each word and each letter picked.
func C37_long() {
	k := pickInt(20, vp.Bound(34, 44))
	t := rep("ab,", k/2) + vp.Str(1) + rep(",ab", k/2)
	s := tok.NewScanner(t)
	b := s.NewBasket()
	letter := tok.Pick(tok.BetweenAny("a-z"), b, "letter")
	word := tok.Pick(tok.Many(letter), b, "word")
	list := tok.Pick(tok.Seq(word, tok.Zom(tok.Seq(',', word))), b, "list")
	s.Use(list)
	pipeline(s, t, b.Picked())
}
