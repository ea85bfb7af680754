package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

// seen is everything that a read shows.
type seen struct {
	ok, read   bool // succeeded, failed with a ReadError
	end        int
	mark       int
	what, text string
}

func see(s *tok.Scanner, r tok.Reader) seen {
	err := s.Use(r)
	v := seen{ok: err == nil, end: pos(s)}
	if e, is := err.(tok.ReadError); is {
		v.read, v.mark, v.what = true, int(e.Marker), e.What
	} else if err != nil {
		v.text = err.Error()
	}
	return v
}

func (v seen) same(o seen, label string) {
	vp.Assert(v.ok == o.ok && v.end == o.end, label)
	vp.Assert(v.read == o.read && v.mark == o.mark && v.what == o.what && v.text == o.text, label+", also in its error")
}

func keep(l []tok.Segment) []tok.Segment { return append([]tok.Segment{}, l...) }

// newGrammar is a new grammar of a language.
func newGrammar(k int) tok.Grammar {
	switch k {
	case 0:
		return grammar.JSON()
	case 1:
		return grammar.Lua()
	}
	return grammar.MXT()
}

// doc is a document of a language with an arbitrary character in it, and one that is not accepted.
func doc(k int) string {
	switch k {
	case 0:
		return pick("{\"a\":[1"+oneOf(", ]}3")+"2]}", "[tru"+oneOf("ex")+"]")
	case 1:
		return pick("a=f("+oneOf("b, )1")+")", "local"+oneOf(" x(")+"b")
	}
	return pick("// a --> s\n//"+oneOf("s ")+" b -->\nc", "// "+oneOf("a ")+"-->\nb")
}

// C40_grammars: two grammars of the same language (JSON, Lua, MXT), made before or after the other is used, with a basket and a log of one of them or of both: reading with one shows nothing in the basket and log of the other, and both read as if they were alone; documents with an arbitrary character.
func C40_grammars() {
	lang := vp.Choose(3)
	t := doc(lang)
	late := vp.Bool()
	g1 := newGrammar(lang)
	var g2 tok.Grammar
	s1, s2 := tok.NewScanner(t), tok.NewScanner(t)
	b1 := s1.NewBasketFor(g1)
	l1 := tok.MonitorGrammar(g1)
	var b2 *tok.Basket
	second := func() {
		g2 = newGrammar(lang)
		b2 = s2.NewBasketFor(g2)
	}
	if !late {
		second()
	}
	v1 := see(s1, g1)
	p1, n1 := keep(b1.Picked()), len(l1.Entries)
	if late {
		second()
	}
	vp.Assert(len(b2.Picked()) == 0, "the basket of a grammar has no picks of another one")
	v2 := see(s2, g2)
	v1.same(v2, "two grammars of a language read the same")
	vp.Assert(sameSegs(p1, b2.Picked()), "two grammars of a language pick the same")
	vp.Assert(sameSegs(p1, b1.Picked()), "reading with a grammar changes no other basket")
	vp.Assert(len(l1.Entries) == n1, "reading with a grammar changes no other log")
	x, y := tok.GrammarLines(g1.Grammar()), tok.GrammarLines(newGrammar(lang).Grammar())
	vp.Assert(len(x) == len(y), "two grammars of a language have the same rules")
	for i := range x {
		vp.Assert(x[i] == y[i], "two grammars of a language have the same rules")
	}
	vp.ObserveInt("end", v1.end)
}

// C40_again: the same grammar (JSON, Lua, MXT) reads a document, then another one, then the first again, each with a scanner and basket of its own; documents with an arbitrary character.
func C40_again() {
	lang := vp.Choose(3)
	t, u := doc(lang), doc(lang)
	g := newGrammar(lang)
	var first seen
	var picks []tok.Segment
	for i, x := range []string{t, u, t} {
		s := tok.NewScanner(x)
		b := s.NewBasketFor(g)
		v := see(s, g)
		switch i {
		case 0:
			first, picks = v, keep(b.Picked())
		case 2:
			v.same(first, "a grammar reads a text as before")
			vp.Assert(sameSegs(picks, b.Picked()), "a grammar picks as before")
		}
	}
	vp.ObserveInt("end", first.end)
}

// anyReader40 is an arbitrary combinator of literals, of such combinators, or another reader over them.
func anyReader40(w *world) tok.Reader {
	kinds := []kind{kSeq, kAny, kSkip, kOpt, kTimes, kZom, kMany, kAt, kNot, kTo, kPast, kPick, kMap, kMonitor, kNamed, kRule}
	if vp.Bool() {
		return w.build(anyComb(kinds, 2, abLeaf))
	}
	in := tok.Any(tok.Seq("a", "b"), "b")
	switch vp.Choose(9) {
	case 0:
		return tok.Body(tok.Zom("a"), in)
	case 1:
		return tok.BodyTail(tok.Zom(tok.Not(in)), in)
	case 2:
		return tok.SkipWSSeq(in, tok.Opt("c"))
	case 3:
		return tok.AnyFold("AB", "b")
	case 4:
		return tok.Set("a-b", "c")
	case 5:
		return tok.Holey('a', 'z', "b")
	case 6:
		beg, end := tok.Janus("j", tok.Many(tok.AnyRune("ab")))
		r := tok.Seq(beg, "c", end)
		return tok.Wrap("janus", func(s *tok.Scanner) error {
			if r.Read(s) != nil {
				return plainError{}
			}
			return nil
		})
	case 7:
		return tok.Many(tok.Any(tok.Seq(in, tok.Not(in)), tok.Past("c")))
	}
	return tok.Zom(tok.Any(tok.Fold("A"), tok.Seq("b", tok.At(tok.Lit("c")))))
}

// C40_reader: a reader made of any combinator of literals or of several others reads a text, then another one, then the first at the same place again; texts of up to 3 characters out of a, b and c.
func C40_reader() {
	n := vp.Bound(2, 3)
	t, u := mostOf("abc", n+1), mostOf("abc", n)
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	r := anyReader40(w)
	what := r.What()
	s, p := at(t)
	v := see(s, r)
	o, _ := at(u)
	see(o, r)
	s.ToMarker(tok.Marker(p))
	see(s, r).same(v, "a reader reads a text as before")
	fresh := tok.NewScanner(t)
	fresh.Move(p)
	see(fresh, r).same(v, "a reader reads with another scanner as before")
	vp.Assert(r.What() == what, "reading does not change the description of a reader")
	vp.ObserveInt("end", v.end)
}

// C40_scanners: three movements or scans with each of two scanners of the same text, one after the other or by turns, lead to the same places; every text of up to 3 bytes.
func C40_scanners() {
	t := text(vp.Bound(2, 3))
	a, b, c := tok.NewScanner(t), tok.NewScanner(t), tok.NewScanner(t)
	pat := text(1)
	r := vp.Rune()
	steps := []int{vp.Choose(7), vp.Choose(7)}
	do := func(s *tok.Scanner, i int) {
		switch steps[i] {
		case 0:
			s.MoveRunes(1)
		case 1:
			s.To(pat)
		case 2:
			s.WhileRune(r)
		case 3:
			s.RevTo(pat)
		case 4:
			s.RevWhileRune(r)
		case 5:
			s.ToEnd()
		case 6:
			s.ReadInt(10, 8)
		}
	}
	for i := range steps {
		do(a, i)
	}
	for i := range steps {
		do(b, i)
		do(c, i)
		vp.Assert(pos(b) == pos(c), "two scanners go the same way")
	}
	vp.Assert(pos(a) == pos(b) && a.Head() == b.Head() && a.Tail() == c.Tail(), "a scanner does not depend on others")
	vp.ObserveInt("pos", pos(a))
}

// C40_lists: Segmentate, BuildGraph, Append, Leafs and GrammarLines leave the lists they are given alone, and lists they return are the caller's own; 3 segments with markers up to 8, lists with spare room.
func C40_lists() {
	segs := make([]tok.Segment, 0, 8)
	for i := 0; i < 2; i++ {
		segs = append(segs, seg(pick("", "i"), within(0, 8), within(0, 8)))
	}
	segs = append(segs, seg("k", 3, 5))[:3]
	more := segs[:3:4]
	bkp := keep(segs)
	unchanged := func(label string) { vp.Assert(sameSegs(segs, bkp), label) }
	switch vp.Choose(3) {
	case 0:
		res, _ := seg("s", within(0, 4), within(4, 8)).Segmentate(more)
		unchanged("Segmentate leaves the segments alone")
		for i := range res {
			res[i].Info = "x"
		}
		unchanged("the result of Segmentate is its own")
	case 1:
		g := tok.BuildGraph("r", more)
		unchanged("BuildGraph leaves the segments alone")
		h := tok.BuildGraph("r", more)
		l := g.Leafs()
		for i := range l {
			l[i].Info = "x"
		}
		vp.Assert(g.Equal(h) && h.Equal(g), "the result of Leafs is its own")
		g.Append(seg("y", 2, 9))
		unchanged("Append leaves the segments alone")
		vp.Assert(h.Equal(tok.BuildGraph("r", more)), "graphs of the same segments are their own")
	case 2:
		g, h := tok.NewGraph("r"), tok.NewGraph("r")
		g.Append(segs[0])
		g.Append(segs[1])
		vp.Assert(len(h.Root.Nodes) == 0 && h.Root.Len() == 0, "graphs are their own")
	}
}
