package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

func jsonAccepts(t string) {
	s := tok.NewScanner(t)
	err := s.Use(grammar.JSON())
	ref := &jsonRef{t: t}
	end := ref.element(0)
	vp.ObserveBool("ok", err == nil)
	vp.ObserveInt("pos", pos(s))
	vp.Assert((err == nil && s.AtEnd()) == (end == len(t)), "a text is read to its end exactly if it is a JSON text")
	if err != nil {
		vp.Assert(pos(s) == 0, "a failed read does not move")
	}
}

// C25_any: every valid UTF-8 text of up to 4 (6) bytes.
func C25_any() {
	t := text(vp.Bound(4, 6))
	vp.Assume(valid(t))
	jsonAccepts(t)
}

// oneOf is an arbitrary byte out of a set.
func oneOf(set string) string {
	b := vp.Byte()
	in := false
	for i := 0; i < len(set); i++ {
		in = in || b == set[i]
	}
	vp.Assume(in)
	return string([]byte{b})
}

// mostOf is a text of up to max arbitrary bytes out of a set.
func mostOf(set string, max int) string {
	t := ""
	for i := vp.Choose(max + 1); i > 0; i-- {
		t += oneOf(set)
	}
	return t
}

// C25_structure: every text of up to 8 (9) characters out of the structural characters, a quote, a digit and a blank.
func C25_structure() {
	jsonAccepts(mostOf("{}[],:\"1 ", vp.Bound(8, 9)))
}

// C25_number: every text of up to 8 (10) characters that occur in numbers.
func C25_number() {
	jsonAccepts(mostOf("+-.eE019", vp.Bound(8, 10)))
}

// C25_string: strings with arbitrary content of 4 (6) valid bytes; unicode escapes with any 5 bytes behind them.
func C25_string() {
	t := ""
	switch vp.Choose(3) {
	case 0:
		t = "\"" + text(vp.Bound(4, 5)) + "\""
	case 1:
		t = "\"\\u" + text(vp.Bound(5, 6)) + "\""
	case 2:
		t = "\"\\" + vp.Str(1) + "\\" + vp.Str(1) + "\""
	}
	vp.Assume(valid(t))
	jsonAccepts(t)
}

// C25_word: the words with one or two arbitrary bytes instead of any of their letters, and with anything before and behind them.
func C25_word() {
	w := []string{"true", "false", "null"}[vp.Choose(3)]
	i := vp.Choose(len(w))
	k := vp.Choose(3)
	t := vp.Str(vp.Choose(2)) + w[:i] + vp.Str(k) + w[i:]
	if vp.Bool() {
		t = w[:i] + vp.Str(k) + w[i+1:] + vp.Str(vp.Choose(2))
	}
	vp.Assume(valid(t))
	jsonAccepts(t)
}

// C25_nested: members and elements with arbitrary bytes at every place where something may be missing, additional or wrong.
func C25_nested() {
	b := func() string { return vp.Str(vp.Choose(2)) }
	t := ""
	switch vp.Choose(6) {
	case 0:
		t = "{" + b() + "\"a\"" + b() + ":" + b() + "1" + b() + "}"
	case 1:
		t = "[" + b() + "1" + b() + "," + b() + "2" + b() + "]" + b()
	case 2:
		t = "{\"a\":1" + b() + "," + b() + "\"b\"" + b() + ":2}"
	case 3:
		t = b() + "[[" + b() + "]," + b() + "{" + b() + "}" + b() + "]"
	case 4:
		t = "{\"a\"" + vp.Str(vp.Choose(3)) + "[" + vp.Str(vp.Choose(3)) + "]}"
	case 5:
		t = "[1" + vp.Str(vp.Choose(3)) + "\"x\"" + vp.Str(vp.Choose(3)) + "]"
	}
	vp.Assume(valid(t))
	jsonAccepts(t)
}

// longJSON is a long or deep document with one or two arbitrary bytes inserted or in place of another one.
func longJSON() string {
	b := vp.Str(1)
	switch vp.Choose(8) {
	case 0:
		k := pickInt(6, 20, 70)
		return rep("[", k) + b + rep("]", k)
	case 1:
		k := pickInt(6, 15, 70)
		return rep("{\"a\":", k) + "1" + b + rep("}", k)
	case 2:
		return "[" + rep("1,", pickInt(9, 33, 140)) + b + pick("", "2") + rep(",[]", 3) + "]"
	case 3:
		return "{" + rep("\"a\" : 1 ,", pickInt(9, 17, 70)) + "\"k\"" + b + "2}"
	case 4:
		k := pickInt(0, 17, 39, 290)
		s := rep("a\\n\u00e9", pickInt(10, 60))
		vp.Assume(k < len(s))
		for k < len(s) && (s[k]&0xC0) == 0x80 {
			k++
		}
		return "\"" + s[:k] + b + s[k:] + "\""
	case 5:
		d := rep("19", pickInt(20, 140))
		k := pickInt(0, 1, 20, 40, 280)
		vp.Assume(k <= len(d))
		return d[:k] + b + d[k:]
	case 6:
		d := "-" + rep("30", 9) + "." + rep("07", 9) + "e+" + rep("01", 9)
		k := pickInt(0, 1, 18, 20, 37, 38, 39, 40, len(d))
		return d[:k] + b + d[k:]
	}
	w := rep(" \t\r\n", pickInt(5, 70))
	return w + pick("[", "") + w + b + w + pick("]", "") + w
}

// C25_long: documents nested up to 70 deep, arrays and objects of up to 140 parts, strings of up to 300 characters, numbers of up to 280 digits, runs of up to 280 blanks, each with an arbitrary byte in it.
func C25_long() {
	t := longJSON()
	vp.Assume(valid(t))
	jsonAccepts(t)
}

// C25_again: a grammar that has read another text before, accepted or not.
func C25_again() {
	g := grammar.JSON()
	first := tok.NewScanner(pick("[1,{\"a\":[]}]", "[[[", "\"\\u12", "{\"a\":1", "tru") + text(1))
	first.Use(g)
	t := text(vp.Bound(3, 4))
	vp.Assume(valid(t))
	s := tok.NewScanner(t)
	err := s.Use(g)
	ref := &jsonRef{t: t}
	vp.Assert((err == nil && s.AtEnd()) == (ref.element(0) == len(t)), "a text is read to its end exactly if it is a JSON text")
	if err != nil {
		vp.Assert(pos(s) == 0, "a failed read does not move")
	}
}
