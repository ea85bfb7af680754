package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// ------------------------------------------------------------------ sub-readers

// outcome is what an arbitrary sub-reader does at one position.
type outcome struct {
	start int
	ok    bool
	end   int // after success
	junk  int // where a failing read leaves the scanner
	mark  int // marker of the error
	plain bool
}

// stub is a sub-reader with arbitrary behaviour: for every position at which it is
// tried it has its own arbitrary outcome, always the same for the same position.
type stub struct {
	n     int  // length of the text
	tame  bool // leaves the scanner alone when it fails
	fwd   bool // does not go before its start when it fails
	other bool // may fail with an error that is no ReadError
	some  bool // always consumes something
	recs  []outcome
}

func (st *stub) at(p int) outcome {
	for _, r := range st.recs {
		if r.start == p {
			return r
		}
	}
	o := outcome{start: p, ok: vp.Bool()}
	if o.ok {
		o.end = within(p, st.n)
		if st.some {
			vp.Assume(o.end > p)
		}
	} else {
		o.junk = p
		if st.fwd {
			o.junk = within(p, st.n)
		} else if !st.tame {
			o.junk = within(0, st.n)
		}
		o.mark = within(0, st.n)
		if st.other {
			o.plain = vp.Bool()
		}
	}
	st.recs = append(st.recs, o)
	return o
}

// within is an arbitrary number in lo..hi.
func within(lo, hi int) int {
	v := vp.Int()
	vp.Assume(lo <= v && v <= hi)
	return v
}

type plainError struct{ mark int }

func (e plainError) Error() string { return "plain" }

func (st *stub) reader() tok.Reader {
	return tok.Wrap("stub", func(s *tok.Scanner) error {
		o := st.at(pos(s))
		if o.ok {
			s.ToMarker(tok.Marker(o.end))
			return nil
		}
		s.ToMarker(tok.Marker(o.junk))
		if o.plain {
			return plainError{o.mark}
		}
		return tok.ReadError{Marker: tok.Marker(o.mark), What: "stub"}
	})
}

// ---------------------------------------------------------------- reader trees

type kind int

const (
	kLeaf kind = iota
	kSeq
	kSkip
	kAny
	kOpt
	kTimes
	kZom
	kMany
	kAt
	kNot
	kTo
	kPast
	kPick
	kMap
	kMonitor
	kNamed
	kRule
	kLit
	kChar
	kSet
	kEnd
)

var kindName = []string{"leaf", "Seq", "SkipSeq", "Any", "Opt", "Times", "Zom", "Many", "At", "Not", "To", "Past",
	"Pick", "Map", "Monitor", "Named", "Rule", "Lit", "Rune", "AnyRune", "AtEnd"}

type node struct {
	raw bool // a literal is given as plain value
	k   kind
	sub []*node
	st  *stub
	n   int
	inf string
}

// world is what a tree is built for.
type world struct {
	text   string
	basket *tok.Basket
	log    *tok.Log
	maps   []tok.Token
	leaf   func(*stub) tok.Reader // builds the leafs, if set
	empty  int                    // empty picks that the reference made so far, also in branches that were given up
}

// args are the readers as arguments of a combinator.
func args(ns []*node, rs []tok.Reader) []interface{} {
	res := []interface{}{}
	for i, r := range rs {
		switch x := ns[i]; {
		case x.raw && x.k == kLit:
			res = append(res, x.inf)
		case x.raw && x.k == kChar:
			res = append(res, rune(x.n))
		default:
			res = append(res, r)
		}
	}
	return res
}

func (w *world) build(n *node) tok.Reader {
	subs := []tok.Reader{}
	for _, x := range n.sub {
		subs = append(subs, w.build(x))
	}
	list := args(n.sub, subs)
	switch n.k {
	case kLit:
		return tok.Lit(n.inf)
	case kChar:
		return tok.Rune(rune(n.n))
	case kSet:
		return tok.AnyRune(n.inf)
	case kEnd:
		return tok.AtEnd()
	case kSeq:
		return tok.Seq(list...)
	case kSkip:
		return tok.SkipSeq(subs[0], list[1:]...)
	case kAny:
		return tok.Any(list...)
	case kOpt:
		return tok.Opt(list[0])
	case kTimes:
		return tok.Times(n.n, subs[0])
	case kZom:
		return tok.Zom(list[0])
	case kMany:
		return tok.Many(list[0])
	case kAt:
		return tok.At(subs[0])
	case kNot:
		return tok.Not(subs[0])
	case kTo:
		return tok.To(list[0])
	case kPast:
		return tok.Past(list[0])
	case kPick:
		return tok.Pick(subs[0], w.basket, n.inf)
	case kMap:
		return tok.Map(subs[0], func(t tok.Token) { w.maps = append(w.maps, t) })
	case kMonitor:
		return tok.Monitor(subs[0], w.log, n.inf)
	case kNamed:
		return tok.Named("name", subs[0])
	case kRule:
		return &tok.Rule{Name: "rule", Reader: subs[0]}
	}
	if w.leaf != nil {
		return w.leaf(n.st)
	}
	return n.st.reader()
}

// result of the reference: what a read of the tree at a position does.
type result struct {
	ok    bool
	end   int
	mark  int // marker of the error, -1 if it is no ReadError
	picks []tok.Segment
}

func fail(mark int) result { return result{mark: mark} }

// ref is the reference semantics.
func (w *world) ref(n *node, p int) result {
	switch n.k {
	case kSeq, kSkip, kTimes:
		seq := n.sub
		if n.k == kSkip {
			seq = []*node{n.sub[0]}
			for _, x := range n.sub[1:] {
				seq = append(seq, x, n.sub[0])
			}
		} else if n.k == kTimes {
			seq = nil
			for i := 0; i < n.n; i++ {
				seq = append(seq, n.sub[0])
			}
		}
		q := p
		picks := []tok.Segment{}
		for _, x := range seq {
			r := w.ref(x, q)
			if !r.ok {
				return fail(r.mark)
			}
			q = r.end
			picks = append(picks, r.picks...)
		}
		return result{ok: true, end: q, picks: picks}
	case kAny:
		deepest := -1
		for _, x := range n.sub {
			r := w.ref(x, p)
			if r.ok {
				return r
			}
			if r.mark > deepest {
				deepest = r.mark
			}
		}
		if len(n.sub) == 0 {
			deepest = p
		}
		return fail(deepest)
	case kOpt:
		r := w.ref(n.sub[0], p)
		if r.ok {
			return r
		}
		return result{ok: true, end: p}
	case kZom, kMany:
		q := p
		picks := []tok.Segment{}
		for {
			r := w.ref(n.sub[0], q)
			if !r.ok {
				break
			}
			picks = append(picks, r.picks...)
			if r.end == q {
				break
			}
			q = r.end
		}
		if n.k == kMany && q == p {
			return fail(p)
		}
		return result{ok: true, end: q, picks: picks}
	case kAt:
		r := w.ref(n.sub[0], p)
		if !r.ok {
			return fail(r.mark)
		}
		return result{ok: true, end: p}
	case kNot:
		r := w.ref(n.sub[0], p)
		_, width := dec(w.text, p)
		if r.ok || width == 0 {
			return fail(p)
		}
		return result{ok: true, end: p + width}
	case kTo, kPast:
		q := p
		for {
			r := w.ref(n.sub[0], q)
			if r.ok {
				if n.k == kTo {
					return result{ok: true, end: q}
				}
				return r
			}
			_, width := dec(w.text, q)
			if width == 0 {
				return fail(p)
			}
			q += width
		}
	case kPick:
		r := w.ref(n.sub[0], p)
		if r.ok {
			r.picks = append(r.picks, seg(n.inf, p, r.end))
			if p == r.end {
				w.empty++
			}
		}
		return r
	case kMap, kMonitor, kNamed, kRule:
		return w.ref(n.sub[0], p)
	}
	switch n.k {
	case kLit:
		if hasAt(w.text, p, n.inf) {
			return result{ok: true, end: p + len(n.inf)}
		}
		return fail(p)
	case kChar, kSet:
		r, width := dec(w.text, p)
		in := width > 0 && n.k == kChar && r == rune(n.n)
		for i := 0; width > 0 && n.k == kSet && i < len(n.inf); {
			c, l := dec(n.inf, i)
			in = in || c == r
			i += l
		}
		if in {
			return result{ok: true, end: p + width}
		}
		return fail(p)
	case kEnd:
		if p == len(w.text) {
			return result{ok: true, end: p}
		}
		return fail(p)
	}
	o := n.st.at(p)
	if !o.ok {
		if o.plain {
			return fail(-1)
		}
		return fail(o.mark)
	}
	return result{ok: true, end: o.end}
}

func seg(info string, a, b int) tok.Segment {
	return tok.Segment{Info: info, Token: tok.MakeToken(tok.Marker(a), tok.Marker(b))}
}

// leaf and comb build trees.
func leaf(st *stub) *node                    { return &node{k: kLeaf, st: st} }
func comb(k kind, subs ...*node) *node       { return &node{k: k, sub: subs} }
func tagged(k kind, i string, x *node) *node { return &node{k: k, inf: i, sub: []*node{x}} }

// anyComb is an arbitrary combinator of the kinds over sub-readers made by mk.
func anyComb(kinds []kind, width int, mk func() *node) *node {
	k := kinds[vp.Choose(len(kinds))]
	return oneComb(k, width, mk)
}

func oneComb(k kind, width int, mk func() *node) *node {
	n := &node{k: k}
	count := 1
	switch k {
	case kSeq, kAny:
		count = vp.Choose(width + 1)
	case kSkip:
		count = 1 + vp.Choose(width+1)
	case kTimes:
		n.n = vp.Choose(width+2) - 1
	}
	for i := 0; i < count; i++ {
		n.sub = append(n.sub, mk())
	}
	return n
}

// realLeaf is an arbitrary real leaf reader: a literal of up to 2 bytes, a rune or a set of two characters, all arbitrary, or the end of the text.
func realLeaf() *node {
	n := &node{raw: vp.Bool()}
	switch vp.Choose(4) {
	case 0:
		n.k, n.inf = kLit, text(2)
	case 1:
		n.k, n.n = kChar, int(vp.Byte())
	case 2:
		n.k, n.inf, n.raw = kSet, "a\u00e4", false
	case 3:
		n.k, n.raw = kEnd, false
	}
	return n
}

// abLeaf is an arbitrary leaf reader for two given characters.
func abLeaf() *node {
	switch vp.Choose(3) {
	case 0:
		return &node{k: kLit, inf: "a", raw: true}
	case 1:
		return &node{k: kLit, inf: "", raw: true}
	}
	return &node{k: kLit, inf: "ab"}
}

// blank is a text whose content does not matter.
func blank(n int) string {
	t := ""
	for i := 0; i < n; i++ {
		t += "x"
	}
	return t
}

// start is a scanner over the text at an arbitrary position (a symbolic one).
func start(t string) (*tok.Scanner, int) {
	s := tok.NewScanner(t)
	p := within(0, len(t))
	s.ToMarker(tok.Marker(p))
	return s, p
}

// checkRead compares a read with the reference.
func checkRead(s *tok.Scanner, p int, err error, want result, name string) {
	vp.Assert((err == nil) == want.ok, name+" succeeds exactly when it should")
	if err == nil {
		vp.Assert(pos(s) == want.end, name+" ends where it should")
	} else {
		vp.Assert(pos(s) == p, name+" does not move when it fails")
	}
}
