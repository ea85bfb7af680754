package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

func markOf(err error) int {
	if err == nil {
		return -1
	}
	if e, ok := err.(tok.ReadError); ok {
		return int(e.Marker)
	}
	return -2
}

// strip removes the observers.
func strip(x *node) *node {
	switch x.k {
	case kPick, kMap, kMonitor, kNamed, kRule:
		return strip(x.sub[0])
	}
	y := &node{k: x.k, st: x.st, n: x.n}
	for _, s := range x.sub {
		y.sub = append(y.sub, strip(s))
	}
	return y
}

var observers = []kind{kPick, kMap, kMonitor, kNamed, kRule}

func observed(x *node) *node { return tagged(observers[vp.Choose(len(observers))], "o", x) }

// compareObserved reads with and without observers, with and without a coupled basket.
func compareObserved(t string, x *node, use bool) {
	p := within(0, len(t))
	s1, s2 := tok.NewScanner(t), tok.NewScanner(t)
	s1.ToMarker(tok.Marker(p))
	s2.ToMarker(tok.Marker(p))
	w1 := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	if vp.Bool() {
		w1.basket = s1.NewBasket()
	}
	w2 := &world{text: t}
	r1, r2 := w1.build(x), w2.build(strip(x))
	var e1, e2 error
	if use {
		e1, e2 = s1.Use(r1), s2.Use(r2)
	} else {
		e1, e2 = r1.Read(s1), r2.Read(s2)
	}
	vp.ObserveBool("ok", e1 == nil)
	vp.Assert((e1 == nil) == (e2 == nil), "observers do not change whether the read succeeds")
	vp.Assert(pos(s1) == pos(s2), "observers do not change where the scanner ends")
	vp.Assert(markOf(e1) == markOf(e2), "observers do not change the error marker")
}

// C23_leaf: every observer (and every two of them nested) around an arbitrary reader, texts of 3 bytes, any position. The observed reader leaves the scanner alone when it fails, or the read is done with Use.
func C23_leaf() {
	const n = 3
	use := vp.Bool()
	x := observed(leaf(&stub{n: n, tame: !use, other: true}))
	if vp.Bool() {
		x = observed(x)
	}
	compareObserved(blank(n), x, use)
}

// C23_combinators: observers around every combinator and around its sub-readers, up to 2 sub-readers; texts of 2 bytes.
func C23_combinators() {
	const n = 2
	o := observers[vp.Choose(len(observers))]
	x := anyComb(fwdCombs, 2, func() *node {
		return tagged(o, "o", leaf(&stub{n: n, fwd: true}))
	})
	compareObserved(blank(n), observed(x), true)
}

// C23_grammar: a JSON grammar whose rules are all picked, mapped or monitored, with a coupled basket, against a plain one; every text of up to 3 (5) bytes and nested documents with arbitrary bytes in them.
func C23_grammar() {
	t := ""
	switch vp.Choose(3) {
	case 0:
		t = text(vp.Bound(3, 4))
	case 1:
		t = "{\"a\"" + vp.Str(1) + "[1" + vp.Str(2) + "]}"
	case 2:
		t = "[tru" + vp.Str(2) + "\"\\" + vp.Str(1) + "\"]"
	}
	g1, g2 := grammar.JSON(), grammar.JSON()
	s1, s2 := tok.NewScanner(t), tok.NewScanner(t)
	switch vp.Choose(4) {
	case 0:
		s1.NewBasketFor(g1)
	case 1:
		tok.MonitorGrammar(g1)
	case 2:
		for _, r := range g1.Grammar() {
			r.Map(func(tok.Token) {})
		}
	case 3:
		tok.MonitorGrammar(g1)
		s1.NewBasketFor(g1)
		g1.Value.Map(func(tok.Token) {})
	}
	v1, v2 := tok.Reader(g1), tok.Reader(g2)
	if vp.Bool() { // the rule's own error has a marker
		v1, v2 = &g1.Element, &g2.Element
	}
	e1, e2 := s1.Use(v1), s2.Use(v2)
	vp.Assert((e1 == nil) == (e2 == nil), "observers do not change whether the read succeeds")
	vp.Assert(pos(s1) == pos(s2), "observers do not change where the scanner ends")
	vp.Assert(markOf(e1) == markOf(e2), "observers do not change the error marker")
}
