package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

func digitAt(t string, i int) bool { return i < len(t) && t[i] >= '0' && t[i] <= '9' }
func hexAt(t string, i int) bool   { return i < len(t) && hexByte(t[i]) }
func isAt(t string, i int, set string) bool {
	if i >= len(t) {
		return false
	}
	for k := 0; k < len(set); k++ {
		if t[i] == set[k] {
			return true
		}
	}
	return false
}

// outside marks texts about which the property says nothing.
const outside = -2

// luaExp is the end of an exponent with the given letters at i, i if there is none.
func luaExp(t string, i int, letters string) int {
	if !isAt(t, i, letters) {
		return i
	}
	k := i + 1
	if isAt(t, k, "+-") {
		k++
	}
	if !digitAt(t, k) {
		return i
	}
	for digitAt(t, k) {
		k++
	}
	return k
}

// luaNumeral is the end of the longest numeral at i, -1 if there is none.
func luaNumeral(t string, i int) int {
	if isAt(t, i, "0") && isAt(t, i+1, "xX") && hexAt(t, i+2) {
		k := i + 2
		for hexAt(t, k) {
			k++
		}
		if isAt(t, k, ".") && hexAt(t, k+1) {
			k++
			for hexAt(t, k) {
				k++
			}
		}
		return luaExp(t, k, "pP")
	}
	if !digitAt(t, i) {
		return -1
	}
	for digitAt(t, i) {
		i++
	}
	if isAt(t, i, ".") && digitAt(t, i+1) {
		i++
		for digitAt(t, i) {
			i++
		}
	}
	return luaExp(t, i, "eE")
}

// luaLong is the end of a long bracket at i, -1 if there is none.
func luaLong(t string, i int) int {
	if !isAt(t, i, "[") {
		return -1
	}
	k := i + 1
	for isAt(t, k, "=") {
		k++
	}
	level := k - i - 1
	if !isAt(t, k, "[") {
		return -1
	}
	for k++; k < len(t); k++ {
		if t[k] != ']' {
			continue
		}
		e := k + 1
		for e < len(t) && t[e] == '=' && e-k-1 < level {
			e++
		}
		if e-k-1 == level && isAt(t, e, "]") {
			return e + 1
		}
	}
	return -1
}

// luaString is the end of the string at i, -1 if there is none.
func luaString(t string, i int) int {
	if !isAt(t, i, "\"'") {
		return luaLong(t, i)
	}
	q := t[i]
	i++
	for i < len(t) {
		c := t[i]
		switch {
		case c == q:
			return i + 1
		case c == '\n' || c == '\r':
			return -1
		case c != '\\':
			i++
		case isAt(t, i+1, "\r") && isAt(t, i+2, "\n"):
			i += 3
		case isAt(t, i+1, "abfnrtvz\"'\\\n\r"):
			i += 2
		case digitAt(t, i+1):
			if digitAt(t, i+2) && digitAt(t, i+3) && (t[i+1] > '2' || t[i+1] == '2' && (t[i+2] > '5' || t[i+2] == '5' && t[i+3] > '5')) {
				return outside // no byte has this number
			}
			i += 2
		case isAt(t, i+1, "x") && hexAt(t, i+2) && hexAt(t, i+3):
			i += 4
		case isAt(t, i+1, "u") && isAt(t, i+2, "{") && hexAt(t, i+3):
			i += 4
			for hexAt(t, i) {
				i++
			}
			if !isAt(t, i, "}") {
				return -1
			}
			i++
		default:
			return -1
		}
	}
	return -1
}

// luaComment is the end of the comment at i, -1 if there is none.
func luaComment(t string, i int) int {
	if !isAt(t, i, "-") || !isAt(t, i+1, "-") {
		return -1
	}
	i += 2
	if e := luaLong(t, i); e >= 0 {
		return e
	}
	if isAt(t, i, "[") {
		k := i + 1
		for isAt(t, k, "=") {
			k++
		}
		if isAt(t, k, "[") {
			return outside // long comment without end
		}
	}
	for i < len(t) && t[i] != '\n' {
		i++
	}
	return i
}

func luaName(t string, i int) int {
	if i >= len(t) || !letter(t[i]) && t[i] != '_' {
		return -1
	}
	from := i
	for i < len(t) && (letter(t[i]) || t[i] == '_' || digitAt(t, i)) {
		i++
	}
	if isReserved(t[from:i]) {
		return -1
	}
	return i
}

type luaPart struct {
	name string
	r    tok.Reader
	ref  func(string, int) int
}

func luaParts(k int) luaPart {
	g := grammar.Lua()
	switch k {
	case 0:
		return luaPart{"numeral", grammar.LuaNumeral(), luaNumeral}
	case 1:
		return luaPart{"string", grammar.LuaString(), luaString}
	case 2:
		return luaPart{"comment", grammar.LuaComment(), luaComment}
	case 3:
		return luaPart{"name", &g.Name, luaName}
	case 4:
		return luaPart{"numeral rule", &g.Numeral, luaNumeral}
	case 5:
		return luaPart{"string rule", &g.LiteralString, luaString}
	}
	return luaPart{"comment rule", &g.Comment, luaComment}
}

func lexes(t string, p int, x luaPart) {
	s := tok.NewScanner(t)
	s.Move(p)
	err := s.Use(x.r)
	want := x.ref(t, p)
	vp.ObserveBool("ok", err == nil)
	vp.ObserveInt("pos", pos(s))
	if want == outside {
		return
	}
	if want < 0 {
		vp.Assert(err != nil, x.name+": nothing is read where there is none")
		vp.Assert(pos(s) == p, x.name+": a failed read does not move")
		return
	}
	vp.Assert(err == nil, x.name+" is read")
	vp.Assert(pos(s) == want, x.name+": the longest one is read")
}

// C27_any: every valid text of up to 3 (4) bytes with every reader, also behind other text.
func C27_any() {
	t := text(vp.Bound(3, 4))
	vp.Assume(valid(t))
	p := 0
	if vp.Bool() {
		t = "-" + t
		p = 1
	}
	lexes(t, p, luaParts(vp.Choose(7)))
}

// C27_numeral: every text of up to 6 (8) characters out of those that occur in numerals.
func C27_numeral() {
	t := mostOf("0.aexp+x", vp.Bound(6, 7))
	if vp.Bool() {
		t = oneOf("0123456789") + oneOf("09afAFeEpPxX.-+") + oneOf("059afAFgG.pPeE+-") + vp.Str(vp.Bound(1, 2))
		vp.Assume(valid(t))
	}
	lexes(t, 0, luaParts([]int{0, 4}[vp.Choose(2)]))
}

// C27_string: quoted strings with up to 4 (5) arbitrary bytes; escapes with arbitrary bytes behind them.
func C27_string() {
	q := []string{"\"", "'"}[vp.Choose(2)]
	t := ""
	switch vp.Choose(4) {
	case 0:
		t = q + text(vp.Bound(4, 5)) + q
	case 1:
		t = q + "\\x" + vp.Str(vp.Choose(4)) + q
	case 2:
		t = q + "\\u" + vp.Str(vp.Choose(vp.Bound(4, 5))) + q
	case 3:
		t = q + "\\u{1" + vp.Str(vp.Choose(3)) + q + vp.Str(1)
	}
	vp.Assume(valid(t))
	lexes(t, 0, luaParts([]int{1, 5}[vp.Choose(2)]))
}

// C27_long: every text of up to 7 (9) characters out of brackets, equal signs, a line break and a letter, alone as a string and behind two hyphens as a comment.
func C27_long() {
	t := mostOf("[]=\na", vp.Bound(7, 8))
	switch vp.Choose(3) {
	case 0:
		lexes(t, 0, luaParts(1))
	case 1:
		lexes("--"+t, 0, luaParts(2))
	case 2:
		// twice with the same reader: what was read first does not matter
		x := luaParts(1 + vp.Choose(2))
		first := "[==[b]==]"
		if x.name == "comment" {
			first = "--" + first
			t = "--" + t
		}
		s := tok.NewScanner(first)
		vp.Assert(s.Use(x.r) == nil && s.AtEnd(), x.name+": a long bracket is read")
		lexes(t, 0, x)
	}
}

// C27_far: long numerals, names, strings and comments of up to 300 bytes and brackets of level 0 to 12, 70 and 300, each with an arbitrary byte in it.
func C27_far() {
	b := vp.Str(1)
	t := ""
	var k int
	switch vp.Choose(7) {
	case 0:
		m := pickInt(8, 100)
		d := rep("19", m) + "." + rep("05", m) + "e-" + rep("10", m)
		i := pickInt(0, 5, 2*m, 2*m+1, 2*m+6, 4*m+1, 4*m+2, 4*m+3, len(d))
		t, k = d[:i]+b+d[i:], pickInt(0, 4)
	case 1:
		m := pickInt(8, 100)
		d := "0x" + rep("aF", m) + "." + rep("0e", m) + "p+" + rep("10", m)
		i := pickInt(1, 2, 5, 2*m+2, 2*m+3, 2*m+6, 4*m+3, 4*m+4, 4*m+5, len(d))
		t, k = d[:i]+b+d[i:], pickInt(0, 4)
	case 2:
		d := rep("aZ_9", pickInt(10, 75))
		i := pickInt(0, 1, 20, len(d)-1, len(d))
		t, k = d[:i]+b+d[i:], 3
	case 3:
		d := rep("a\\n\\065\u00e9\\x4f\\u{20ac}", pickInt(4, 13))
		q := pick("\"", "'")
		i := pickInt(0, 1, len(d)/2, len(d))
		t, k = q+d[:i]+b+d[i:]+q+pick("", "x"), pickInt(1, 5)
	case 4:
		t, k = "\"\\u{"+rep("0", pickInt(7, 20, 300))+b+"}\"", 1
	case 5:
		n := vp.Choose(14)
		if n == 13 {
			n = pickInt(70, 300)
		}
		e := rep("=", n)
		d := "]" + rep("=", n+1) + "]" + rep("a\n", pickInt(8, 140)) + b + "]" + e + pick("", "x")
		if n > 0 {
			d = "]" + rep("=", n-1) + "]" + d
		}
		t, k = "["+e+"["+d+"]"+e+"]"+pick("", "]"), pickInt(1, 2)
		if k == 2 {
			t = "--" + t
		}
	case 6:
		t, k = "--"+rep("a[=", pickInt(12, 90))+b+rep(" x", 6)+pick("", "\n", "\r\n")+"y", pickInt(2, 6)
	}
	vp.Assume(valid(t))
	lexes(t, 0, luaParts(k))
}
