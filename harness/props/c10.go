package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// wild is a function of a scanner that moves it anywhere, possibly several times, and reports an arbitrary result.
func wild(s *tok.Scanner, n int) bool {
	s.ToMarker(tok.Marker(within(0, n)))
	s.ToMarker(tok.Marker(within(0, n)))
	return vp.Bool()
}

// C10_scopes: Use, UseFunc, TraceUse, TraceUseFunc, TokenizeUse, CaptureUse, Scope, Trace, Tokenize, Capture around a reader or function that moves to two arbitrary places of a 6 byte text and ends with an arbitrary result.
func C10_scopes() {
	const n = 6
	s, p := start(blank(n))
	f := func(s *tok.Scanner) error {
		if wild(s, n) {
			return nil
		}
		return plainError{}
	}
	b := func() bool { return wild(s, n) }
	r := tok.Wrap("wild", f)
	ok := true
	name := ""
	switch vp.Choose(10) {
	case 0:
		ok, name = s.Use(r) == nil, "Use"
	case 1:
		ok, name = s.UseFunc(f) == nil, "UseFunc"
	case 2:
		_, e := s.TraceUse(r)
		ok, name = e == nil, "TraceUse"
	case 3:
		_, e := s.TraceUseFunc(f)
		ok, name = e == nil, "TraceUseFunc"
	case 4:
		_, e := s.TokenizeUse(r)
		ok, name = e == nil, "TokenizeUse"
	case 5:
		_, e := s.CaptureUse(r)
		ok, name = e == nil, "CaptureUse"
	case 6:
		ok, name = s.Scope(b), "Scope"
	case 7:
		_, ok = s.Trace(b)
		name = "Trace"
	case 8:
		_, ok = s.Tokenize(b)
		name = "Tokenize"
	case 9:
		_, ok = s.Capture(b)
		name = "Capture"
	}
	if !ok {
		vp.Assert(pos(s) == p, "a failing "+name+" restores the position")
	}
}

var allCombs = []kind{kSeq, kSkip, kAny, kOpt, kTimes, kZom, kMany, kAt, kNot, kTo, kPast, kPick, kMap}

// C10_combinators: every combinator over up to 3 arbitrary sub-readers (any outcome at any position, moving anywhere before failing), texts of 3 (4) bytes, any position.
func C10_combinators() {
	n := vp.Bound(3, 4)
	t := blank(n)
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	x := anyComb(allCombs, 3, func() *node { return leaf(&stub{n: n}) })
	s, p := start(t)
	err := w.build(x).Read(s)
	if err != nil {
		vp.Assert(pos(s) == p, kindName[x.k]+" does not move when it fails")
	}
}

// C10_nested: combinators over combinators over arbitrary sub-readers.
func C10_nested() {
	n := 2
	t := blank(n)
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	x := anyComb(allCombs, 2, func() *node {
		return anyComb(allCombs, 1, func() *node { return leaf(&stub{n: n}) })
	})
	s, p := start(t)
	err := w.build(x).Read(s)
	if err != nil {
		vp.Assert(pos(s) == p, kindName[x.k]+" does not move when it fails")
	}
}

// C10_leaf: every leaf reader of C14, RuleName, Bool, Int and Uint with arbitrary parameters on every text of up to 3 (5) bytes, any position.
func C10_leaf() {
	k := vp.Choose(nLeafs + 4)
	var r tok.Reader
	name := ""
	switch k - nLeafs {
	case 0:
		r, name = tok.RuleName(), "RuleName"
	case 1:
		r, name = tok.Bool(pick("", "l", "U", "Cc", "*", "x")), "Bool"
	case 2:
		r, name = tok.Int(anyBase(), pickInt(8, 64, 5)), "Int"
	case 3:
		r, name = tok.Uint(anyBase(), pickInt(8, 64, 5)), "Uint"
	default:
		l := leafOf(k)
		r, name = l.r, l.name
	}
	t := text(vp.Bound(3, 5))
	s, p := at(t)
	if r.Read(s) != nil {
		vp.Assert(pos(s) == p, name+" does not move when it fails")
	}
}

// C10_body: Body and BodyTail over arbitrary sub-readers that go anywhere before failing, texts of 3 (4) bytes, any position.
func C10_body() {
	n := vp.Bound(3, 4)
	s, p := start(blank(n))
	b, e := &stub{n: n}, &stub{n: n}
	r, name := tok.Body(b.reader(), e.reader()), "Body"
	if vp.Choose(2) == 1 {
		r, name = tok.BodyTail(b.reader(), e.reader()), "BodyTail"
	}
	if r.Read(s) != nil {
		vp.Assert(pos(s) == p, name+" does not move when it fails")
	}
}

// C10_more: SkipWSSeq, AnyFold with no word, both ends of a Janus pair and a rule that picks, maps and is monitored, over arbitrary sub-readers, texts of 3 (4) bytes, any position.
func C10_more() {
	n := vp.Bound(3, 4)
	s, p := start(blank(n))
	a := &stub{n: n}
	var r tok.Reader
	name := ""
	switch vp.Choose(3) {
	case 0:
		r, name = tok.SkipWSSeq(a.reader(), (&stub{n: n}).reader()), "SkipWSSeq"
	case 1:
		r, name = tok.AnyFold(), "AnyFold"
	case 2:
		_, end := tok.Janus("x", a.reader())
		r, name = end, "the end of a Janus pair"
	}
	if r.Read(s) != nil {
		vp.Assert(pos(s) == p, name+" does not move when it fails")
	}
}
