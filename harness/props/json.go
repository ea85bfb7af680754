package props

import "github.com/aiq/tok"

// jsonRef recognises JSON texts by RFC 8259 and notes the spans of the constructs, in
// the order in which they end.
type jsonRef struct {
	t     string
	pick  func(info string) bool // constructs to note
	spans []tok.Segment
	done  []*jsonNode // constructs that are complete and not yet part of another one
}

type jsonNode struct {
	seg tok.Segment
	sub []*jsonNode
}

// begin is called where a construct begins, note with its result where it ends.
func (j *jsonRef) begin() int { return len(j.done) }

func (j *jsonRef) note(b int, info string, from, to int) {
	if j.pick == nil || !j.pick(info) {
		return
	}
	seg := tok.Segment{Info: info, Token: tok.MakeToken(tok.Marker(from), tok.Marker(to))}
	j.spans = append(j.spans, seg)
	n := &jsonNode{seg: seg, sub: append([]*jsonNode{}, j.done[b:]...)}
	j.done = append(j.done[:b], n)
}

func (j *jsonRef) is(i int, c byte) bool { return i < len(j.t) && j.t[i] == c }

func (j *jsonRef) digit(i int) bool { return i < len(j.t) && j.t[i] >= '0' && j.t[i] <= '9' }

func (j *jsonRef) digits(i int) int {
	for j.digit(i) {
		i++
	}
	return i
}

// atom notes a construct without parts.
func (j *jsonRef) atom(info string, from, to int) { j.note(j.begin(), info, from, to) }

func (j *jsonRef) someDigits(i int) int {
	e := j.digits(i)
	if e > i {
		j.atom("digits", i, e)
	}
	return e
}

func (j *jsonRef) ws(i int) int {
	for i < len(j.t) && (j.t[i] == ' ' || j.t[i] == '\t' || j.t[i] == '\n' || j.t[i] == '\r') {
		i++
	}
	return i
}

func (j *jsonRef) lit(i int, w string) bool { return i+len(w) <= len(j.t) && j.t[i:i+len(w)] == w }

// blanks is ws, noted.
func (j *jsonRef) blanks(i int) int {
	e := j.ws(i)
	if e > i {
		j.atom("ws", i, e)
	}
	return e
}

// number returns the end of the longest number at i, -1 if there is none.
func (j *jsonRef) number(i int) int {
	b, from := j.begin(), i
	if j.is(i, '-') {
		i++
	}
	if !j.digit(i) {
		return -1
	}
	if j.t[i] == '0' {
		i++
	} else {
		j.atom("onenine", i, i+1)
		i = j.someDigits(i + 1)
	}
	j.note(b, "integer", from, i)
	if j.is(i, '.') && j.digit(i+1) {
		b, from = j.begin(), i
		i = j.someDigits(i + 1)
		j.note(b, "fraction", from, i)
	}
	if j.is(i, 'e') || j.is(i, 'E') {
		b, from = j.begin(), i
		k := i + 1
		if j.is(k, '+') || j.is(k, '-') {
			k++
		}
		if j.digit(k) {
			if k > i+1 {
				j.atom("sign", i+1, k)
			}
			i = j.someDigits(k)
			j.note(b, "exponent", from, i)
		}
	}
	return i
}

func hexByte(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func (j *jsonRef) str(i int) int {
	if !j.is(i, '"') {
		return -1
	}
	i++
	all, first := j.begin(), i
	for i < len(j.t) {
		c := j.t[i]
		if c == '"' {
			if i > first {
				j.note(all, "characters", first, i)
			}
			return i + 1
		}
		if c < 0x20 {
			return -1
		}
		if c != '\\' {
			_, w := dec(j.t, i)
			j.atom("character", i, i+w)
			i += w
			continue
		}
		b, from := j.begin(), i
		i++
		if i >= len(j.t) {
			return -1
		}
		switch j.t[i] {
		case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			i++
		case 'u':
			if i+5 > len(j.t) || !hexByte(j.t[i+1]) || !hexByte(j.t[i+2]) || !hexByte(j.t[i+3]) || !hexByte(j.t[i+4]) {
				return -1
			}
			for k := 1; k < 5; k++ {
				j.atom("hex", i+k, i+k+1)
			}
			i += 5
		default:
			return -1
		}
		j.note(b, "escape", from+1, i)
		j.note(b, "character", from, i)
	}
	return -1
}

func (j *jsonRef) value(i int) int {
	b := j.begin()
	e := j.bare(i)
	if e >= 0 {
		j.note(b, "value", i, e)
	}
	return e
}

func (j *jsonRef) bare(i int) int {
	if i >= len(j.t) {
		return -1
	}
	b := j.begin()
	switch c := j.t[i]; {
	case c == '{':
		e := j.object(i)
		if e >= 0 {
			j.note(b, "object", i, e)
		}
		return e
	case c == '[':
		e := j.array(i)
		if e >= 0 {
			j.note(b, "array", i, e)
		}
		return e
	case c == '"':
		e := j.str(i)
		if e >= 0 {
			j.note(b, "string", i, e)
		}
		return e
	case c == '-' || c >= '0' && c <= '9':
		e := j.number(i)
		if e >= 0 {
			j.note(b, "number", i, e)
		}
		return e
	case j.lit(i, "true"):
		j.note(b, "bool", i, i+4)
		return i + 4
	case j.lit(i, "null"):
		j.note(b, "null", i, i+4)
		return i + 4
	case j.lit(i, "false"):
		j.note(b, "bool", i, i+5)
		return i + 5
	}
	return -1
}

func (j *jsonRef) element(i int) int {
	b := j.begin()
	e := j.value(j.blanks(i))
	if e < 0 {
		return -1
	}
	e = j.blanks(e)
	j.note(b, "element", i, e)
	return e
}

func (j *jsonRef) array(i int) int {
	i++
	if e := j.ws(i); j.is(e, ']') {
		j.blanks(i)
		return e + 1
	}
	b, from := j.begin(), i
	for {
		i = j.element(i)
		if i < 0 {
			return -1
		}
		if !j.is(i, ',') {
			j.note(b, "elements", from, i)
		}
		if j.is(i, ']') {
			return i + 1
		}
		if !j.is(i, ',') {
			return -1
		}
		i++
	}
}

func (j *jsonRef) member(i int) int {
	b := j.begin()
	k := j.blanks(i)
	kb := j.begin()
	e := j.str(k)
	if e < 0 {
		return -1
	}
	j.note(kb, "key", k, e)
	e = j.blanks(e)
	if !j.is(e, ':') {
		return -1
	}
	e = j.element(e + 1)
	if e >= 0 {
		j.note(b, "member", i, e)
	}
	return e
}

func (j *jsonRef) object(i int) int {
	i++
	if e := j.ws(i); j.is(e, '}') {
		j.blanks(i)
		return e + 1
	}
	b, from := j.begin(), i
	for {
		i = j.member(i)
		if i < 0 {
			return -1
		}
		if !j.is(i, ',') {
			j.note(b, "members", from, i)
		}
		if j.is(i, '}') {
			return i + 1
		}
		if !j.is(i, ',') {
			return -1
		}
		i++
	}
}

// valid tells if t is valid UTF-8.
func valid(t string) bool {
	for i := 0; i < len(t); {
		_, w := dec(t, i)
		if w == 1 && t[i] >= 0x80 {
			return false
		}
		i += w
	}
	return true
}
