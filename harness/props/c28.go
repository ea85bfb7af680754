package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

// wordText tells if t consists of valid word characters.
func wordText(t string) bool {
	for i := 0; i < len(t); i++ {
		if t[i] < 0x21 {
			return false
		}
	}
	return valid(t)
}

func word(min, max int) string {
	t := textBetween(min, max)
	vp.Assume(wordText(t))
	return t
}

func lineBreak() string {
	if vp.Bool() {
		return "\r\n"
	}
	return "\n"
}

// chunk is one chunk of an MXT document.
type chunk struct {
	pad     string // rest of the word behind the marker
	gaps    [3]int // further blanks before the name, before and after the salt
	name    string
	comment string
	salt    string
	body    bool
	content string
}

// write is the text of the document.
func write(chunks []chunk, nl string) string {
	t := ""
	salt := ""
	for i, c := range chunks {
		if i > 0 {
			t += nl
		}
		t += "//" + salt + c.pad + " " + blankOf(' ', c.gaps[0]) + c.name + c.comment + "-->"
		if c.salt != "" {
			t += " " + blankOf(' ', c.gaps[1]) + c.salt
		}
		t += blankOf(' ', c.gaps[2])
		if c.body {
			t += nl + c.content
		}
		salt = c.salt
	}
	return t
}

// fits tells if the content can stand in a chunk: no line of it starts with the marker, and it does not end in half a line break.
func (c chunk) fits() bool {
	m := "//" + c.salt
	for i := 0; i < len(c.content); i++ {
		if (i == 0 || c.content[i-1] == '\n') && hasAt(c.content, i, m) {
			return false
		}
	}
	n := len(c.content)
	return n == 0 || c.content[n-1] != '\r'
}

func readBack(chunks []chunk, nl string) {
	readBackWith(grammar.MXT(), chunks, nl)
}

func readBackWith(g *grammar.MXTReader, chunks []chunk, nl string) {
	t := write(chunks, nl)
	s := tok.NewScanner(t)
	names, contents, order := []string{}, []string{}, ""
	g.Name.Map(func(k tok.Token) { names = append(names, s.Get(k)); order += "n" })
	g.EmptyContent.Map(func(tok.Token) { contents = append(contents, ""); order += "c" })
	g.Content.Map(func(k tok.Token) { contents = append(contents, s.Get(k)); order += "c" })
	err := s.Use(g)
	vp.ObserveBool("ok", err == nil)
	vp.ObserveInt("pos", pos(s))
	vp.Assert(err == nil, "the document is accepted")
	vp.Assert(s.AtEnd(), "the document is read to its end")
	vp.Assert(len(names) == len(chunks) && len(contents) == len(chunks), "every chunk is reported once")
	want := ""
	for i, c := range chunks {
		if i < len(names) && i < len(contents) {
			vp.Assert(names[i] == c.name, "the name is the written one")
			vp.Assert(contents[i] == c.content, "the content is the written one")
		}
		want += "nc"
	}
	vp.Assert(order == want, "names and contents are reported in order")
}

// C28_content: one chunk with arbitrary content of up to 5 (6) bytes, then a second one; salt of up to 1 byte.
func C28_content() {
	nl := lineBreak()
	c := chunk{name: "a", comment: " ", salt: word(0, 1), body: true, content: text(vp.Bound(4, 6))}
	vp.Assume(c.fits())
	list := []chunk{c}
	if vp.Bool() {
		list = append(list, chunk{name: "b", comment: " "})
	}
	readBack(list, nl)
}

// C28_marker: content made of line breaks, slashes and salt characters, up to 7 (9) characters, with salt of up to 2 characters; then a second chunk.
func C28_marker() {
	nl := lineBreak()
	c := chunk{name: "a", comment: " ", salt: []string{"", "x", "xy", "xx"}[vp.Choose(4)], body: true, content: mostOf("\r\n/xy", vp.Bound(6, 8))}
	vp.Assume(c.fits())
	readBack([]chunk{c, {name: "b", comment: " ", pad: "+"}}, nl)
}

// C28_header: arbitrary names, padding, comments and salts, with and without a body, one or two chunks.
func C28_header() {
	nl := lineBreak()
	list := []chunk{}
	n := 1 + vp.Choose(2)
	for i := 0; i < n; i++ {
		c := chunk{name: "n", comment: " "}
		switch vp.Choose(4) {
		case 0:
			c.pad = word(0, 2)
			c.comment = "\n"
		case 1:
			c.name = word(1, vp.Bound(2, 3))
		case 2:
			c.comment = string([]byte{oneOf(" \n\t")[0]}) + text(vp.Bound(2, 3))
			vp.Assume(valid(c.comment))
		case 3:
			c.salt = word(1, vp.Bound(2, 3))
		}
		// the arrow at the end is the first one
		line := c.comment + "-->"
		for k := 0; k+3 < len(line); k++ {
			vp.Assume(!hasAt(line, k, "-->"))
		}
		c.body = vp.Bool()
		if c.body && vp.Bool() {
			c.content = "/-"
		}
		list = append(list, c)
	}
	readBack(list, nl)
}

// C28_three: three chunks with and without salts and bodies, so that a salt must be forgotten.
func C28_three() {
	list := []chunk{}
	for i := 0; i < 3; i++ {
		c := chunk{name: []string{"a", "b", "c"}[i], comment: " ", body: vp.Bool()}
		if vp.Bool() {
			c.salt = oneOf("xy/")
		}
		if c.body {
			c.content = []string{"", "//x", "/\n/"}[vp.Choose(3)]
		}
		vp.Assume(c.fits())
		list = append(list, c)
	}
	readBack(list, lineBreak())
}

// C28_gaps: one to three blanks before the name and before the salt, up to two behind it; two chunks.
func C28_gaps() {
	list := []chunk{}
	for i := 0; i < 2; i++ {
		c := chunk{name: "a", comment: " ", body: vp.Bool()}
		if vp.Bool() {
			c.salt = "x"
		}
		if i == 0 || vp.Bool() {
			c.gaps = [3]int{vp.Choose(3), vp.Choose(3), vp.Choose(3)}
		}
		if c.body {
			c.content = "//" + text(1-i)
		}
		vp.Assume(c.fits())
		list = append(list, c)
	}
	readBack(list, lineBreak())
}

// C28_wide: names, salts and content made of arbitrary valid characters of 1 to 4 bytes.
func C28_wide() {
	c := chunk{name: "a", comment: " ", body: true}
	w := word(1, 4)
	switch vp.Choose(5) {
	case 0:
		c.name = "a" + w
	case 1:
		c.salt = w
	case 2:
		c.salt = "x" + w
	case 3:
		c.content = w
	case 4:
		c.comment = " " + w
		line := c.comment + "-->"
		for k := 0; k+3 < len(line); k++ {
			vp.Assume(!hasAt(line, k, "-->"))
		}
	}
	vp.Assume(c.fits())
	readBack([]chunk{c, {name: "b", comment: " "}}, "\n")
}

// C28_long: contents of up to 20 (60) lines with up to 20 characters and up to 12 (30) chunks, one of the lines or chunks with an arbitrary byte.
func C28_long() {
	list := []chunk{}
	k := 1 + vp.Choose(vp.Bound(12, 30))
	odd := vp.Choose(k)
	for i := 0; i < k; i++ {
		c := chunk{name: blankOf('a', 1+i), comment: " ", body: i%3 != 1}
		if i%4 == 2 {
			c.salt = "xy"
		}
		for j := 0; c.body && j < (i*7)%vp.Bound(20, 60); j++ {
			c.content += blankOf('z', j%20) + "\n"
		}
		if c.body && i == odd {
			c.content += vp.Str(1)
		}
		vp.Assume(c.fits())
		list = append(list, c)
	}
	readBack(list, "\n")
}

// C28_again: a grammar that has read another document before, accepted or not, with a salt that must be forgotten.
func C28_again() {
	g := grammar.MXT()
	first := tok.NewScanner(pick("// a --> x", "// a --> x\nz\n//x b -->", "// a --> x\n//", "// a") + text(1))
	first.Use(g)
	c := chunk{name: "a", comment: " ", salt: pick("", "x", "y"), body: true, content: mostOf("\n/x", vp.Bound(4, 6))}
	vp.Assume(c.fits())
	readBackWith(g, []chunk{c, {name: "b", comment: " "}}, "\n")
}

// C28_far: names, salts, lines and contents of 70 and 300 bytes, comments of 70 bytes and 40 chunks, with an arbitrary byte in one of them.
func C28_far() {
	n := pickInt(70, 300)
	b := vp.Str(1)
	c := chunk{name: "a", comment: " ", body: true, content: "z\n"}
	more := 1
	switch vp.Choose(6) {
	case 0:
		vp.Assume(wordText(b))
		c.name = rep("a", n) + b
	case 1:
		vp.Assume(wordText(b))
		c.salt = rep("xy", n/2) + b
	case 2:
		vp.Assume(n < 100) // the time to find the arrow is quadratic
		c.comment = " " + rep("a ", n/2) + b
		vp.Assume(wordText(b) || b == " " || b == "\t")
	case 3:
		c.content = rep("z/", n/2) + b + rep("y", 20)
	case 4:
		c.content = rep("z\n", n/2) + b + "\n//y\n" + rep("/", n)
		c.salt = "x"
	case 5:
		c.content += b
		more = 40
	}
	vp.Assume(c.fits())
	list := []chunk{}
	for i := 0; i < more; i++ {
		list = append(list, chunk{name: "o", comment: " ", body: i%3 != 0, content: rep("k\n", i%3)})
	}
	readBack(append(append([]chunk{c}, list...), c), lineBreak())
}
