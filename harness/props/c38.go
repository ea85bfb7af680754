package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

// mxtRef reads a text by the syntax of MXT.
type mxtRef struct {
	t     string
	picks []tok.Segment
}

func (m *mxtRef) add(info string, a, b int) {
	if a < b {
		m.picks = append(m.picks, seg(info, a, b))
	}
}

// word is the end of the word characters at p.
func (m *mxtRef) word(p int) int {
	for {
		x, w := dec(m.t, p)
		if w == 0 || x < 0x21 {
			return p
		}
		p += w
	}
}

func (m *mxtRef) blanks(p int) int {
	for p < len(m.t) && m.t[p] == ' ' {
		p++
	}
	return p
}

func (m *mxtRef) nl(p int) int {
	if hasAt(m.t, p, "\n") {
		return p + 1
	}
	if hasAt(m.t, p, "\r\n") {
		return p + 2
	}
	return -1
}

// next tells if a line break and the marker of the next chunk stand at p.
func (m *mxtRef) next(p int, salt string) bool {
	q := m.nl(p)
	return q >= 0 && hasAt(m.t, q, "//"+salt)
}

// chunk is the end of the chunk at p, or -1.
func (m *mxtRef) chunk(p int) int {
	if !hasAt(m.t, p, "//") {
		return -1
	}
	q := m.word(p + 2)
	m.add("marker", p, q)
	name := m.blanks(q)
	if name == q {
		return -1
	}
	q = m.word(name)
	if q == name {
		return -1
	}
	m.add("name", name, q)
	// the comment ends where the word with the first arrow begins
	arrow := q
	e := q
	for !hasAt(m.t, e, "-->") {
		x, w := dec(m.t, e)
		if w == 0 {
			return -1
		}
		e += w
		if x < 0x21 {
			arrow = e
		}
	}
	m.add("comment", q, arrow)
	q = e + 3
	m.add("arrow", arrow, q)
	salt := ""
	if b := m.blanks(q); b > q {
		e := m.word(b)
		salt = m.t[b:e]
		e = m.blanks(e)
		m.add("salt", q, e)
		q = e
	}
	m.add("header", p, q)
	if q < len(m.t) && !m.next(q, salt) {
		c := m.nl(q)
		if c < 0 {
			return -1
		}
		q = c
		for q < len(m.t) && !m.next(q, salt) {
			_, w := dec(m.t, q)
			q += w
		}
		m.add("content", c, q)
	}
	m.add("chunk", p, q)
	return q
}

// chunks is the end of the chunks at p, or -1.
func (m *mxtRef) chunks(p int) int {
	q := m.chunk(p)
	if q < 0 {
		return -1
	}
	for {
		n := len(m.picks)
		e := m.nl(q)
		if e >= 0 {
			e = m.chunk(e)
		}
		if e < 0 {
			m.picks = m.picks[:n]
			break
		}
		q = e
	}
	m.add("chunks", p, q)
	return q
}

func mxtReads(t string) { mxtReadsAt(t, 0) }

func mxtReadsAt(t string, p int) {
	s := tok.NewScanner(t)
	s.ToMarker(tok.Marker(p))
	g := grammar.MXT()
	b := s.NewBasket()
	b.PickWith(&g.Marker, &g.Name, &g.Comment, &g.Arrow, &g.Salt, &g.Header, &g.Content, &g.Chunk, &g.Chunks)
	err := s.Use(g)
	m := &mxtRef{t: t}
	want := m.chunks(p)
	vp.ObserveBool("ok", err == nil)
	vp.ObserveInt("pos", pos(s))
	vp.Assert((err == nil) == (want >= 0), "a document is accepted exactly if it begins with a chunk")
	if want < 0 {
		vp.Assert(pos(s) == p, "nothing is read if there is no chunk")
		vp.Assert(len(solid(b.Picked())) == 0, "nothing is picked if there is no chunk")
		return
	}
	vp.Cover("accepted")
	vp.Assert(pos(s) == want, "all chunks up to the first text that is none are read")
	vp.Assert(sameSegs(solid(b.Picked()), m.picks), "the picks are the parts of the chunks")
}

// C38_header: two slashes and up to 7 (9) characters out of blank, letter, slash, hyphen, greater and line feed, then an arrow or nothing.
func C38_header() {
	mxtReads("//" + mostOf(" a->\n", vp.Bound(6, 8)) + pick("", "-->", " -->"))
}

// C38_chunks: a header with an arbitrary byte, then up to 6 (8) characters out of slash, letter, blank, carriage return and line feed, then another header or nothing.
func C38_chunks() {
	mxtReads("// a " + vp.Str(1) + "-->" + pick("", " x", " / ") + mostOf("/x \r\n", vp.Bound(5, 7)) + pick("", "// b -->", "\n//x b -->\nz"))
}

// C38_any: two slashes, up to 4 (5) arbitrary bytes and a piece of a document; also documents that begin with up to 2 arbitrary bytes.
func C38_any() {
	if vp.Bool() {
		mxtReads("//" + text(vp.Bound(3, 4)) + pick(" a -->", "-->", " -->\n", " a --> x\n//"))
		return
	}
	mxtReads(text(vp.Bound(2, 3)) + pick(" a -->", "// a -->", "/ a --> x\nz\n//x b --> \n"))
}

// C38_edit: documents of three chunks in which one character is replaced, dropped or has another one put in front of it.
func C38_edit() {
	d := pick("// a --> x\nc1\n//x b -->\nc2\n\n// c -->", "//+ a c -->\r\n\r\n//- bb--> \r\n//z n o p q-->", "// a ---> xy  \n//x\n//xy b a>-- -->y\nz")
	i := vp.Choose(len(d))
	n := pickInt(0, 0, 1)
	mxtReads(d[:i] + pick("", vp.Str(1)) + d[i+n:])
}

// C38_middle: reading from any position of a document with an arbitrary byte in it.
func C38_middle() {
	d := "ab\n// a --> x\nc" + vp.Str(1) + "\n//x b -->\nc2"
	mxtReadsAt(d, vp.Choose(len(d)+1))
}
