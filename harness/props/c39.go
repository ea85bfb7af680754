package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

// trk is a tracker that remembers what it was told.
type trk struct {
	last, low int
	outside   bool
	n         int
}

func (k *trk) Update(m tok.Marker) {
	k.last = int(m)
	if k.last < k.low {
		k.low = k.last
	}
	k.outside = k.outside || k.last < 0 || k.last > k.n
}

// track couples a tracker.
func track(s *tok.Scanner, t string) *trk {
	k := &trk{last: pos(s), low: pos(s), n: len(t)}
	s.Tracker = k
	return k
}

// told asserts what a tracker knows after an operation that began at p.
func (k *trk) told(s *tok.Scanner, p int) {
	vp.Assert(!k.outside, "a tracker is told positions inside the text")
	vp.Assert(k.last == pos(s), "a tracker was told where the scanner is")
	vp.Assert(k.low >= p || k.low >= pos(s), "a tracker is told no position before start and end")
	vp.ObserveInt("last", k.last)
}

// C39_move: Move, MoveRunes, ToMarker, ToEnd, ToStart, ScanString, ReadRune and RevReadRune with any 64-bit argument, two operations in a row; every text of up to 3 (4) bytes, any position.
func C39_move() {
	t := text(vp.Bound(3, 4))
	s, p := at(t)
	k := track(s, t)
	for i := 0; i < 2; i++ {
		p = pos(s)
		k.low = p
		switch vp.Choose(8) {
		case 0:
			s.Move(vp.Int())
		case 1:
			s.MoveRunes(vp.Int())
		case 2:
			s.ToMarker(tok.Marker(vp.Int()))
		case 3:
			s.ToEnd()
		case 4:
			s.ToStart()
		case 5:
			s.ScanString(vp.Int())
		case 6:
			s.ReadRune()
		case 7:
			s.RevReadRune()
		}
		k.told(s, p)
	}
}

// C39_scan: all literal, folding and rune-class scans, forward and backward, with patterns of up to 2 bytes and any class, ReadBool, ReadInt and ReadUint; every text of up to 3 (4) bytes, any position.
func C39_scan() {
	t := text(vp.Bound(3, 4))
	s, p := at(t)
	k := track(s, t)
	switch vp.Choose(14) {
	case 0:
		s.If(text(2))
	case 1:
		s.IfAny(text(1), text(2))
	case 2:
		s.To(text(2))
	case 3:
		s.RevIf(text(2))
	case 4:
		s.RevIfAny([]string{text(1), text(2)})
	case 5:
		s.RevTo(text(2))
	case 6:
		s.IfFold(text(2))
	case 7:
		s.ToFold(text(2))
	case 8:
		s.RevIfFold(text(2))
	case 9:
		s.RevToFold(text(2))
	case 10:
		s.ReadBool(pick("", "l", "U", "Cc", "x"))
	case 11:
		s.ReadInt(pickInt(8, 10, 16), 8)
	case 12:
		s.ReadUint(pickInt(8, 10, 16), 8)
	case 13:
		classOp(s)
	}
	k.told(s, p)
}

// C39_scopes: Use, UseFunc, TraceUse, TraceUseFunc, TokenizeUse, CaptureUse, Scope, Trace, Tokenize, Capture and While around a function that moves ahead to two arbitrary places of a 5 byte text and ends with an arbitrary result.
func C39_scopes() {
	const n = 5
	t := blank(n)
	s, p := start(t)
	k := track(s, t)
	f := func(s *tok.Scanner) error {
		s.ToMarker(tok.Marker(within(p, n)))
		s.ToMarker(tok.Marker(within(p, n)))
		if vp.Bool() {
			return nil
		}
		return plainError{}
	}
	b := func() bool { return f(s) == nil }
	r := tok.Wrap("f", f)
	switch vp.Choose(11) {
	case 0:
		s.Use(r)
	case 1:
		s.UseFunc(f)
	case 2:
		s.TraceUse(r)
	case 3:
		s.TraceUseFunc(f)
	case 4:
		s.TokenizeUse(r)
	case 5:
		s.CaptureUse(r)
	case 6:
		s.Scope(b)
	case 7:
		s.Trace(b)
	case 8:
		s.Tokenize(b)
	case 9:
		s.Capture(b)
	case 10:
		i := 0
		s.While(func() bool { i++; return b() && i < 3 })
	}
	k.told(s, p)
}

// C39_leaf: every leaf reader of C14 with arbitrary parameters; every text of up to 3 (4) bytes, any position.
func C39_leaf() {
	l := leafOf(vp.Choose(nLeafs))
	t := text(vp.Bound(3, 4))
	s, p := at(t)
	k := track(s, t)
	l.r.Read(s)
	k.told(s, p)
}

// watched is a forward moving stub that asserts what the tracker knows when it is asked to read.
func watched(st *stub, k **trk) tok.Reader {
	r := st.reader()
	return tok.Wrap("watched", func(s *tok.Scanner) error {
		vp.Assert((*k).last == pos(s), "a tracker was told where a reader begins")
		return r.Read(s)
	})
}

// C39_readers: combinators of up to two combinators over arbitrary forward moving readers, which look at the tracker when they begin; texts of 2 (3) bytes.
func C39_readers() {
	n := vp.Bound(2, 3)
	t := blank(n)
	var k *trk
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	w.leaf = func(st *stub) tok.Reader { return watched(st, &k) }
	out, in := []kind{kSeq, kAny, kSkip, kMany, kNot, kPast}, []kind{kAny, kSeq, kOpt, kZom, kAt, kTo}
	o, width := out[vp.Choose(len(out))], 2
	if o == kSkip {
		width = vp.Bound(1, 2)
	}
	x := oneComb(o, width, func() *node {
		return anyComb(in, 1, func() *node { return leaf(&stub{n: n, fwd: true}) })
	})
	s, p := start(t)
	k = track(s, t)
	s.Use(w.build(x))
	k.told(s, p)
}

// C39_wide: combinators over up to 3 arbitrary forward moving readers, texts of 3 (4) bytes.
func C39_wide() {
	n := vp.Bound(3, 4)
	t := blank(n)
	var k *trk
	w := &world{text: t, basket: &tok.Basket{}, log: &tok.Log{}}
	w.leaf = func(st *stub) tok.Reader { return watched(st, &k) }
	x := anyComb(allCombs, 3, func() *node { return leaf(&stub{n: n, fwd: true}) })
	s, p := start(t)
	k = track(s, t)
	s.Use(w.build(x))
	k.told(s, p)
}

// C39_body: Body, BodyTail and both ends of a Janus pair over arbitrary forward moving readers or sequences and alternatives of two of them, texts of 2 (3) bytes.
func C39_body() {
	n := vp.Bound(2, 3)
	t := blank(n)
	var k *trk
	mk := func() tok.Reader { return watched(&stub{n: n, fwd: true}, &k) }
	a, b := mk(), mk()
	switch vp.Choose(5) {
	case 0:
		a = tok.Seq(a, mk())
	case 1:
		a = tok.Any(a, mk())
	case 2:
		b = tok.Seq(b, mk())
	case 3:
		b = tok.Any(b, mk())
	}
	var r tok.Reader
	switch vp.Choose(3) {
	case 0:
		r = tok.Body(a, b)
	case 1:
		r = tok.BodyTail(a, b)
	case 2:
		beg, end := tok.Janus("j", a)
		r = tok.Seq(beg, b, end)
	}
	s, p := start(t)
	k = track(s, t)
	s.Use(r)
	k.told(s, p)
}

// C39_grammar: the JSON, Lua and MXT grammars on documents with two arbitrary bytes in them, from the start and from behind the first byte.
func C39_grammar() {
	var r tok.Reader
	t := ""
	switch vp.Choose(3) {
	case 0:
		r, t = grammar.JSON(), "x[{\"a\":"+vp.Str(1)+"}, 2"+vp.Str(1)+"]"
	case 1:
		r, t = grammar.Lua(), "x a="+vp.Str(1)+"{b,1"+vp.Str(1)+"}"
	case 2:
		r, t = grammar.MXT(), "x// a --> s"+vp.Str(1)+"\nb\n//s"+vp.Str(1)+"c -->"
	}
	s, p := atOf(t, 0, 1)
	k := track(s, t)
	s.Use(r)
	k.told(s, p)
}
