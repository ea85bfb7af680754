package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

func grammarOf(k int) tok.Reader {
	switch k {
	case 0:
		return grammar.JSON()
	case 1:
		return grammar.Lua()
	case 2:
		return grammar.MXT()
	case 3:
		return &grammar.Lua().Script
	case 4:
		return grammar.LuaString()
	case 5:
		return grammar.LuaComment()
	}
	return grammar.LuaNumeral()
}

// ends reads t with a grammar; a read that does not end or panics is reported by the checker itself.
func ends(t string, p int, r tok.Reader) {
	s := tok.NewScanner(t)
	s.Move(p)
	err := s.Use(r)
	q := pos(s)
	vp.ObserveBool("ok", err == nil)
	vp.ObserveInt("pos", q)
	if err != nil {
		vp.Assert(q == p, "a failed read does not move")
	} else {
		vp.Assert(q >= p && q <= len(t), "the scanner is inside the text")
	}
	vp.Assert(s.Head()+s.Tail() == t, "the text is unchanged")
}

// C33_json: the JSON grammar on every byte string of up to 5 (6) bytes.
func C33_json() { ends(text(vp.Bound(5, 6)), 0, grammarOf(0)) }

// C33_lua: the Lua grammar and its script rule on every byte string of up to 3 (4) bytes.
func C33_lua() { ends(text(vp.Bound(3, 4)), 0, grammarOf([]int{1, 3}[vp.Choose(2)])) }

// C33_mxt: the MXT grammar on two slashes and up to 4 (5) arbitrary bytes, and on a header with arbitrary bytes behind it.
func C33_mxt() {
	t := text(3)
	switch vp.Choose(3) {
	case 0:
		t = "//" + text(vp.Bound(4, 5))
	case 1:
		t = "// n -->" + text(vp.Bound(4, 5))
	}
	ends(t, 0, grammarOf(2))
}

// C33_lexical: the lexical Lua readers on every byte string of up to 4 (5) bytes that starts like such an element.
func C33_lexical() {
	k := vp.Choose(3)
	t := ""
	switch k {
	case 0:
		t = oneOf("\"'[") + text(vp.Bound(4, 5))
	case 1:
		t = "--" + text(vp.Bound(4, 5))
	case 2:
		t = text(vp.Bound(4, 5))
	}
	ends(t, 0, grammarOf(4+k))
}

var samples = [][]string{
	{"{ \"k\\u00e9\": [1.5e-3, true, null], \"\u00e4\": {} }", "[[],[{}]]"},
	{"-- c\nlocal a <x>, b = 1, {[1]=2; c=\"s\"}", "for i=1,2 do f:g(i) end", "if a then return -1 else ::l:: end", "function o.f(x, ...) end", "repeat x.y[1]=[=[z]=] until not a"},
	{"//+ a c -->\nx\n// b --> S\n//\n//S c -->", "// a\n\n// -->\r\n"},
}

// C33_cut: documents of all three languages, cut off anywhere, with 1 (2) arbitrary bytes where they are cut off and possibly the rest behind them.
func C33_cut() {
	k := vp.Choose(3)
	t := samples[k][vp.Choose(len(samples[k]))]
	i := vp.Choose(len(t) + 1)
	u := t[:i] + vp.Str(vp.Bound(1, 2))
	if vp.Bool() {
		u += t[i:]
	}
	ends(u, 0, grammarOf(k))
}

// C33_middle: reading from the middle of a text.
func C33_middle() {
	t := text(vp.Bound(3, 4))
	p := vp.Choose(len(t) + 1)
	ends(t, p, grammarOf([]int{0, 2}[vp.Choose(2)]))
}

// C33_long: the long and deep JSON documents of C25, long Lua tokens, tables and statement lists, long MXT documents, each with an arbitrary byte in it.
func C33_long() {
	k := vp.Choose(3)
	b := vp.Str(1)
	t := ""
	switch k {
	case 0:
		t = longJSON()
	case 1:
		switch vp.Choose(6) {
		case 0:
			t = "x={" + rep("1,", pickInt(20, 70)) + b + "2}"
		case 1:
			t = rep("x=1;", pickInt(12, 70)) + b + rep("y=2 ", 3)
		case 2:
			t = "x=" + rep("a+", 6) + b + "1"
		case 3:
			t = "x=[" + rep("=", 12) + "[" + rep("a\n", pickInt(10, 140)) + b + "]" + rep("=", 12) + "]"
		case 4:
			t = "--" + rep("a", pickInt(30, 300)) + b + "\n" + rep("do ", 4) + rep("end ", 4)
		case 5:
			t = "a" + rep(".b", 6) + b + rep("[1]", 3) + "=" + rep("9", pickInt(20, 300))
		}
	case 2:
		t = rep("// n -->\n"+rep("x", 20)+"\n", pickInt(3, 9, 40)) + "//" + b + " m --> S\n" + rep("//\n", 9) + "//S o -->"
	}
	ends(t, 0, grammarOf(k))
}

// C33_deep: expressions of the Lua grammar that are nested 4 (5) levels deep in parentheses, calls, tables, indices and functions, with an arbitrary byte in the middle and the brackets closed or not.
func C33_deep() {
	n := vp.Bound(4, 5)
	open := []string{"(", "f(", "{", "a[", "function()return ", "f{", "-(", "{[1]="}
	end := []string{")", ")", "}", "]", " end", "}", ")", "}"}
	k, d := vp.Choose(len(open)), vp.Choose(2)
	t, u := "", ""
	for i := 0; i < n; i++ {
		t += open[(k+i*d)%len(open)]
		u = end[(k+i*d)%len(open)] + u
	}
	t = "x=" + t + vp.Str(1)
	if vp.Bool() {
		t += u
	}
	ends(t, 0, grammarOf(1))
}
