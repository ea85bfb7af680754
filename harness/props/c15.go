package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// readMark is the marker of a ReadError, or -1.
func readMark(err error) int {
	if re, ok := err.(tok.ReadError); ok {
		return int(re.Marker)
	}
	return -1
}

// C15_leaf: every leaf reader of C14 and RuleName with arbitrary parameters on every text of up to 5 (6) bytes, any position.
func C15_leaf() {
	k := vp.Choose(nLeafs + 1)
	var l leafCase
	if k == nLeafs {
		l = leafCase{name: "RuleName", r: tok.RuleName()}
	} else {
		l = leafOf(k)
	}
	t := text(vp.Bound(5, 6))
	s, p := at(t)
	if err := l.r.Read(s); err != nil {
		vp.Assert(readMark(err) == p, l.name+" reports the position at which it was asked to read")
	}
}

// C15_values: ReadRune, RevReadRune, ReadBool, ReadInt, ReadUint and the readers for them on every text of up to 5 (6) bytes, any position.
func C15_values() {
	t := text(vp.Bound(5, 6))
	s, p := at(t)
	base := anyBase()
	size := []int{8, 64}[vp.Choose(2)]
	var err error
	name := ""
	switch vp.Choose(8) {
	case 0:
		_, err = s.ReadRune()
		name = "ReadRune"
	case 1:
		_, err = s.RevReadRune()
		name = "RevReadRune"
	case 2:
		_, err = s.ReadBool([]string{"", "l"}[vp.Choose(2)])
		name = "ReadBool"
	case 3:
		_, err = s.ReadInt(base, size)
		name = "ReadInt"
	case 4:
		_, err = s.ReadUint(base, size)
		name = "ReadUint"
	case 5:
		err = tok.Bool("*").Read(s)
		name = "Bool"
	case 6:
		err = tok.Int(base, size).Read(s)
		name = "Int"
	case 7:
		err = tok.Uint(base, size).Read(s)
		name = "Uint"
	}
	if err != nil {
		vp.Assert(readMark(err) == p, name+" reports the position at which it was asked to read")
	}
}

// C15_search: Many, Not, To, Past, Body and BodyTail over arbitrary sub-readers report their own start; texts of up to 4 (5) bytes.
func C15_search() {
	n := vp.Choose(vp.Bound(4, 5) + 1)
	t := blank(n)
	w := &world{text: t}
	s, p := start(t)
	var r tok.Reader
	name := ""
	switch vp.Choose(3) {
	case 0:
		x := anyComb([]kind{kMany, kNot, kTo, kPast}, 1, func() *node { return leaf(&stub{n: n, other: true}) })
		r, name = w.build(x), kindName[x.k]
	case 1:
		st := &stub{n: n, other: true}
		r, name = tok.Body(tok.Opt('x'), st.reader()), "Body"
	case 2:
		st := &stub{n: n, other: true}
		r, name = tok.BodyTail(tok.Opt('x'), st.reader()), "BodyTail"
	}
	if err := r.Read(s); err != nil {
		vp.Assert(readMark(err) == p, name+" reports the position at which it was asked to read")
	}
}

// C15_pass: Seq, SkipSeq, Times and At pass on the error of the element that failed, Any reports the furthest one of its alternatives; up to 3 arbitrary sub-readers with arbitrary error markers, some failing with an error that is no ReadError, texts of 6 (7) bytes.
func C15_pass() {
	n := vp.Bound(6, 7)
	t := blank(n)
	w := &world{text: t}
	x := anyComb([]kind{kSeq, kSkip, kTimes, kAt, kAny}, 3, func() *node { return leaf(&stub{n: n, other: true}) })
	s, p := start(t)
	err := w.build(x).Read(s)
	want := w.ref(x, p)
	vp.Assert((err == nil) == want.ok, kindName[x.k]+" succeeds exactly when it should")
	if err != nil {
		vp.Assert(readMark(err) == want.mark, kindName[x.k]+" reports the right error")
	}
}

// C15_nested: the same for combinators over combinators, texts of 3 bytes, and with built-in leafs below: markers never lie before the start or outside the text.
func C15_nested() {
	n := 3
	t := blank(n)
	w := &world{text: t}
	kinds := []kind{kSeq, kTimes, kAt, kAny, kMany, kTo}
	x := anyComb(kinds, 2, func() *node {
		return anyComb(kinds, vp.Bound(2, 3), func() *node { return leaf(&stub{n: n, tame: true}) })
	})
	s, p := start(t)
	err := w.build(x).Read(s)
	want := w.ref(x, p)
	vp.Assert((err == nil) == want.ok, kindName[x.k]+" of combinators succeeds exactly when it should")
	if err != nil {
		vp.Assert(readMark(err) == want.mark, kindName[x.k]+" of combinators reports the right error")
	}
}

// C15_wide: Any over 5, 9 and 40 alternatives that all fail at an arbitrary place, and the last of them or one in the middle with an arbitrary outcome; Seq of 5, 9 and 40 elements of which one fails; texts of 6 bytes.
func C15_wide() {
	n := 6
	t := blank(n)
	w := &world{text: t}
	k := pickInt(9, 5, 40)
	hot := pickInt(0, k/2, k-1)
	x := &node{k: kAny}
	if vp.Choose(2) == 1 {
		x.k = kSeq
	}
	s, p := start(t)
	for i := 0; i < k; i++ {
		st := &stub{n: n, tame: true}
		if i != hot {
			o := outcome{start: p, junk: p, mark: p}
			if k <= 9 {
				o.mark = within(p, n)
			} else if i%3 == 1 && p < n {
				o.mark = p + 1
			}
			if x.k == kSeq {
				o = outcome{start: p, ok: true, end: p}
			}
			st.recs = []outcome{o}
		}
		x.sub = append(x.sub, leaf(st))
	}
	err := w.build(x).Read(s)
	if x.k == kSeq && err == nil {
		return
	}
	want := w.ref(x, p)
	vp.Assert((err == nil) == want.ok, kindName[x.k]+" of many succeeds exactly when it should")
	if err != nil {
		vp.Assert(readMark(err) == want.mark, kindName[x.k]+" of many reports the right error")
	}
}
