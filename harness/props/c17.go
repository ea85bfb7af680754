package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// C17_trace: every text of up to 6 (7) bytes, any position, a function or reader that moves anywhere (forward or backward) and succeeds or fails.
func C17_trace() {
	t := text(vp.Bound(6, 7))
	s, p := at(t)
	q := vp.Choose(len(t) + 1)
	ok := vp.Bool()
	f := func() bool {
		s.ToMarker(tok.Marker(q))
		return ok
	}
	rf := func(s *tok.Scanner) error {
		s.ToMarker(tok.Marker(q))
		if ok {
			return nil
		}
		return s.ErrorFor("x")
	}
	r := tok.Wrap("x", rf)
	want := t[min(p, q):max(p, q)]
	wantTok := mkToken(p, q)
	var str string
	var tk tok.Token
	var got bool
	var err error
	isTok := false
	switch vp.Choose(7) {
	case 0:
		tk, got = s.Tokenize(f)
		isTok = true
	case 1:
		tk, err = s.TokenizeUse(r)
		got, isTok = err == nil, true
	case 2:
		str, got = s.Trace(f)
	case 3:
		str, err = s.TraceUse(r)
		got = err == nil
	case 4:
		str, err = s.TraceUseFunc(rf)
		got = err == nil
	case 5:
		str, got = s.Capture(f)
	case 6:
		str, err = s.CaptureUse(r)
		got = err == nil
	}
	vp.ObserveBool("ok", got)
	vp.Assert(got == ok, "the outcome is passed on")
	if ok {
		vp.Assert(pos(s) == q, "after success the scanner is where the function left it")
		if isTok {
			vp.Assert(tk == wantTok, "the token covers exactly what was read")
			vp.Assert(s.Get(tk) == want, "Get returns the text of the token")
		} else {
			vp.Assert(str == want, "the text is exactly what was read")
		}
	} else {
		vp.Assert(pos(s) == p, "after failure the scanner is where it was")
	}
}

// C17_since: every text of up to 6 (7) bytes, any two positions.
func C17_since() {
	t := text(vp.Bound(6, 7))
	s, p := at(t)
	m := vp.Choose(len(t) + 1)
	vp.Assert(s.Since(tok.Marker(m)) == t[min(p, m):max(p, m)], "Since returns the text between the marker and the position")
	a, b := vp.Choose(len(t)+1), vp.Choose(len(t)+1)
	vp.Assert(s.Get(mkToken(a, b)) == t[min(a, b):max(a, b)], "Get returns the text of the token")
	vp.Assert(pos(s) == p, "looking at text does not move")
}

// recorded puts a recorder beneath a Map: every successful read of the sub-reader is noted.
func (w *world) recorded(r tok.Reader, rec *[]tok.Token) tok.Reader {
	return tok.Map(tok.Wrap("recorder", func(s *tok.Scanner) error {
		a := pos(s)
		err := r.Read(s)
		if err == nil {
			*rec = append(*rec, mkToken(a, pos(s)))
		}
		return err
	}), func(t tok.Token) { w.maps = append(w.maps, t) })
}

func sameTokens(a, b []tok.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C17_map: Map around arbitrary sub-readers inside every combinator; texts of up to 3 (4) bytes, up to 2 sub-readers.
func C17_map() {
	t := blank(vp.Choose(vp.Bound(3, 4) + 1))
	w := &world{text: t}
	rec := []tok.Token{}
	sub := func() tok.Reader { return w.recorded((&stub{n: len(t), fwd: true}).reader(), &rec) }
	var r tok.Reader
	switch vp.Choose(10) {
	case 0:
		r = tok.Seq(sub(), sub())
	case 1:
		r = tok.Any(sub(), sub())
	case 2:
		r = tok.SkipSeq(sub(), sub())
	case 3:
		r = tok.Many(sub())
	case 4:
		r = tok.Zom(sub())
	case 5:
		r = tok.Seq(tok.At(sub()), tok.Opt(sub()))
	case 6:
		r = tok.Any(tok.Not(sub()), tok.Times(2, sub()))
	case 7:
		r = tok.Any(tok.To(sub()), sub())
	case 8:
		r = tok.Any(tok.Past(sub()), sub())
	case 9:
		r = tok.Seq(tok.Map(sub(), func(tok.Token) {}), sub())
	}
	s, p := start(t)
	err := s.Use(r)
	vp.Assert(sameTokens(w.maps, rec), "Map's function gets exactly the tokens that were read")
	vp.Assert(err == nil || pos(s) == p, "Use restores")
}

// C17_body: Map around the parts of Body and BodyTail, whose tokens are those of the text itself; every text of up to 4 (5) bytes, any position, runs of one arbitrary rune as body, another as tail.
func C17_body() {
	t := text(vp.Bound(4, 5))
	a, b := vp.Rune(), vp.Rune()
	var last, tail tok.Token
	n := 0
	body := tok.Map(tok.Zom(a), func(x tok.Token) { last = x; n++ })
	end := tok.Map(tok.Rune(b), func(x tok.Token) { tail = x })
	s, p := at(t)
	var r tok.Reader
	withTail := vp.Bool()
	if withTail {
		r = tok.BodyTail(body, end)
	} else {
		r = tok.Body(body, end)
	}
	err := r.Read(s)
	if err == nil {
		e := pos(s)
		if withTail {
			e -= tail.Len()
		}
		vp.Assert(n == 1 && last == mkToken(p, e), "Map gets the token of the body in the text")
		vp.Assert(tail == mkToken(e, e+tail.Len()), "Map gets the token of the tail in the text")
	}
}

// C17_long: texts of 40 and 300 bytes with an arbitrary byte, Since, Get, TraceUse and Tokenize between any two of 9 places.
func C17_long() {
	t := rep("ab", 10) + vp.Str(1) + rep("cd", pickInt(9, 140))
	ps := []int{0, 1, 15, 16, 20, len(t) / 2, len(t) - 40, len(t) - 1, len(t)}
	if len(t) < 40 {
		ps[6] = 2
	}
	p, q := pickInt(ps...), pickInt(ps...)
	s := tok.NewScanner(t)
	s.ToMarker(tok.Marker(p))
	want := t[min(p, q):max(p, q)]
	vp.Assert(s.Since(tok.Marker(q)) == want, "Since returns the text between the marker and the position")
	vp.Assert(s.Get(mkToken(p, q)) == want, "Get returns the text of the token")
	str, err := s.TraceUse(tok.Wrap("x", func(s *tok.Scanner) error {
		s.ToMarker(tok.Marker(q))
		return nil
	}))
	vp.Assert(err == nil && str == want, "TraceUse returns what was read")
	tk, ok := s.Tokenize(func() bool { return s.ToMarker(tok.Marker(p)) })
	vp.Assert(ok && tk == mkToken(p, q), "Tokenize returns what was read")
}
